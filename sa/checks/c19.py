"""C19: filterbanks that break the subsampling condition are refused, all others are not."""
import math
from ..lemma import Ob, Term, Cls, Obj, FWN, FRONTENDS
from ..evalr import is_av, force
from ..models import A, ARGS, FAM, pick, rng_of
from .c24 import seq, U

EXPLANATION = ('value graph of the construction of every 1D and time-frequency frontend, with its own filterbanks and with filterbanks put in its way through the '
               'documented filterbank properties (one offending wavelet or pair at an arbitrary position), and of the condition itself on arbitrary lists: what is '
               'held after construction satisfies the condition, and a refusal happens only for a bank that does not')
TECHNIQUE = 'value-graph extraction by abstract interpretation; exceptional outcomes and held filters judged against the condition, by random-interpretation evaluation of the graph'
NOTE = ('The graph covers every path of construction (checks, options, inherited code); positions, centre frequencies and bandwidths of the offending wavelet range over '
        'finite families. Statements `assert` count as executed (python -O removes them).')
FLOOR = 1
BASE = 'kymatio.frontend.base_frontend'


def num(v):
    v = force(v)
    return v.a.item() if is_av(v) else v


def scale_of(xi, sigma, alpha):
    return int(math.floor(-math.log2(min(abs(xi) + alpha * sigma, 0.5)))) - 1


def broken(first, second, third):
    """which part of the condition the filters break"""
    for n, (xi, j) in enumerate(first):
        if not xi < 0.5 / 2 ** j:
            return 'first-order wavelet %d has centre frequency %s at scale %d' % (n, xi, j)
    for n, (xi, j) in enumerate(first):
        for k, (xi2, j2) in enumerate(second):
            if j < j2 and not xi > xi2:
                return 'wavelets %d and %d have scales %d < %d and centre frequencies %s and %s' % (n, k, j, j2, xi, xi2)
    for n, (xi, j) in enumerate(third):
        if not abs(xi) < 0.5 / 2 ** j:
            return 'log-frequency wavelet %d has centre frequency %s at scale %d' % (n, xi, j)


def judge(wanted):
    def cmp(a, b, m):
        if a[0] == 'raise':
            if a[1] == 'AssertionError':
                w = wanted(m)
                if w is not None and broken(*w) is None:
                    return 'refuses (AssertionError at %s) a filterbank that satisfies the condition' % a[2]
            return None
        h = [[(num(x), num(j)) for (x, j) in [force(p) for p in force(part)]] for part in force(a[1])]
        msg = broken(*h)
        if msg:
            return 'accepted although ' + msg
    return cmp


def natural(m):
    from_ = lambda J, Q, s0, alpha: [(xi, scale_of(xi, s, alpha)) for (xi, s) in lattice(J, Q, s0)]
    third = from_(m['J_fr'], m['Q_fr'], .1, 5.) if 'J_fr' in m else []
    return from_(m['J'], m['Q1'], .1, 5.), from_(m['J'], m['Q2'], .1, 5.), third + [(-x, j) for (x, j) in third]


def lattice(J, Q, sigma0):
    step = 2. ** (1. / Q)
    xi = max(1. / (1. + 2. ** (3. / Q)), 0.35)
    sigma = xi * (step - 1) / (step + 1) / math.sqrt(math.log(2))
    low = sigma0 / 2 ** J
    out = []
    if sigma <= low:
        xi = sigma
    else:
        out.append((xi, sigma))
        while sigma > low * step:
            xi, sigma = xi / step, sigma / step
            out.append((xi, sigma))
    return out + [(xi - k * xi / Q, low) for k in range(1, Q)]


def entry(r, alpha, bad):
    """one wavelet; bad: its centre frequency is not below the Nyquist rate of its scale (needs alpha <= 0)"""
    for _ in range(100):
        e = U(r, .03, .49)
        s = U(r, .001, .02)
        xi = e - alpha * s
        if not .02 < xi < .5:
            continue
        if (not xi < 0.5 / 2 ** scale_of(xi, s, alpha)) == bad:
            return xi, s
    return (.25, .01) if bad else (.3, .001)


def own(t, nq, nt, off):
    def gen(tier, seed):
        i = 0
        seed = 7 * seed + off
        for m in FAM[t](nq, nt, dtype='float32', filt=lambda m: m['N'] >= 16)(tier, seed):
            i += 1
            r = rng_of(seed, i, 'own' + t)
            kind = i % (6 if t == '1d' else 8)
            m = {k: v for k, v in m.items() if k not in ('x', 'Q1', 'Q2')}
            m['Q1'], m['Q2'] = 1, 2
            m['N'] = max(m['N'], 128)
            # 0: all fine  1, 2: one first-order wavelet  3, 4: one pair  5: unrelated orders   6, 7: one log-frequency wavelet
            alpha = pick(r, [0., -1., -2.]) if kind in (1, 2, 6, 7) else pick(r, [5., 1., 2.])
            n1, n2, n3 = [int(r.integers(1, 6)) for _ in range(3)]
            first = [entry(r, alpha, False) for _ in range(n1)]
            if alpha > 0:
                top = sorted(first)
            second = [(x * U(r, .01, .2), s * .1) for (x, s) in [pick(r, first) for _ in range(n2)]]
            second = [(max(x, .02), s) for (x, s) in second]
            if kind == 5:
                second = [entry(r, alpha, False) for _ in range(n2)]
            if kind in (1, 2):
                first[int(r.integers(n1))] = entry(r, alpha, True)
            if kind in (3, 4):
                # a narrow wavelet of the second order above a wide one of the first
                k = int(r.integers(n1))
                first[k] = (.12, .05)
                second[int(r.integers(n2))] = (pick(r, [.12, .13, .14]), .0001)
            m['first'], m['second'], m['alpha'] = first, second, alpha
            if t == 'jtfs':
                third = [entry(r, alpha, False) for _ in range(n3)]
                third = [(x * pick(r, [1, -1]), s) for (x, s) in third]
                if kind in (6, 7):
                    x, s = entry(r, alpha, True)
                    third[int(r.integers(n3))] = (x if kind == 6 else -x, s)
                m['third'] = third
                # scales within reach of the padded log-frequency axis
                m['J_fr'] = max(m['J_fr'], 2)
            yield m
    return gen


def requested(m):
    al = m['alpha']
    f = lambda xs: [(x, scale_of(x, s, al)) for (x, s) in xs]
    return f(m['first']), f(m['second']), f(m.get('third', ()))


def pairs(r, i):
    """arbitrary lists of (xi, j), fine but for at most one place"""
    def one():
        j = int(pick(r, [0, 0, 1, 2, 3, 5]))
        return pick(r, [U(r, 0, .5 / 2 ** j), -U(r, 0, .5)]) if r.random() < .1 else U(r, .2, .99) * .5 / 2 ** j, j
    first = [one() for _ in range(int(r.integers(0, 6)))]
    lo = min([x for x, _ in first], default=.5)
    second = [(U(r, -.2, .999) * lo, int(pick(r, [0, 1, 2, 3, 4, 6]))) for _ in range(int(r.integers(0, 6)))]
    if first and i % 3 == 1:
        k = int(r.integers(len(first)))
        first[k] = (.5 / 2 ** first[k][1] * pick(r, [1., 1.001, 2.]), first[k][1])
    if first and second and i % 3 == 2:
        k, n = int(r.integers(len(first))), int(r.integers(len(second)))
        second[n] = (first[k][0] * pick(r, [1., 1.001, 3.]), first[k][1] + int(pick(r, [0, 1, 1, 2])))
    return dict(first=first, second=second)


def obligations(tier, seed):
    yield Ob('C19/condition', BASE + '.ScatteringBase._check_filterbanks', Term('chk.direct', [Obj(BASE, 'ScatteringBase._check_filterbanks')] + A('first', 'second'), 'np'),
             lambda m: ('value', None), seq(150, 3000, 'cond', pairs), cmp=judge(lambda m: (m['first'], m['second'], [])), internal=True,
             note='the condition on arbitrary first- and second-order filters')
    for (t, f) in FRONTENDS:
        if t not in ('1d', 'jtfs'):
            continue
        anchor = '%s.%s' % FRONTENDS[(t, f)][:2]
        names = ARGS[t]
        filt = (lambda m: m['T'] != 0 and m['stride'] is None) if f == 'keras' else None
        n = 40 if t == '1d' else 25

        def more(gen, off=len(f) + ord(f[0])):
            def g(tier, seed):
                i = 0
                for m in gen(tier, 7 * seed + off):
                    i += 1
                    m.pop('x', None)
                    if i % 3 == 0:
                        m['Q2'] = int(pick(rng_of(seed, i, 'q2'), [1, 2, 4, 8, 12, 16]))
                    yield m
            return g
        yield Ob('C19/%s/%s/own' % (t, f), anchor, Term('chk.nat' + ('keras' if f == 'keras' else t), [Cls(t, f)] + A(*names), FWN[f]), lambda m: ('value', None),
                 more(FAM[t](n, n * 12, dtype='float32', filt=filt)), cmp=judge(natural), internal=True, note='construction from the documented filterbank')
        if f == 'keras':
            continue
        extra = ['first', 'second'] + (['third'] if t == 'jtfs' else []) + ['alpha']
        yield Ob('C19/%s/%s/given' % (t, f), anchor, Term('chk.own' + t, [Cls(t, f)] + A(*(extra + names)), FWN[f]), lambda m: ('value', None),
                 own(t, 4 * n, n * 24, len(f) + ord(f[0])), cmp=judge(requested), internal=True, note='construction from a filterbank supplied through the filterbank property')
