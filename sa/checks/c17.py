"""C17: padding by reflection and its removal, at every resolution."""
from ..lemma import Ob, Term, Cls, Obj, Arr, FWN, FRONTENDS, default_cmp, deep
from ..evalr import is_av, force
from ..models import A, ARGS, FAM, pick
from .c19 import num
from .c24 import seq
from .c03 import small

EXPLANATION = ('value graphs of the padding and unpadding primitives of every backend, of the integer arithmetic behind them, of the padding held by every frontend, of the '
               'zeroth order without averaging (which must be the input itself) and of the outputs of every frontend (whose lengths must count the samples on the original support)')
TECHNIQUE = 'value-graph extraction by abstract interpretation; comparison with closed forms by random-interpretation value numbering'
NOTE = ('Decided per finite model of lengths, scales, strides and options. The padded length follows the documented rule (three supports of the low-pass filter on each side, '
        'a power of two, capped so that reflection needs fewer samples than the signal has).')
FLOOR = 1
U1, U2 = 'kymatio.scattering1d.utils', 'kymatio.scattering2d.utils'
BE = {'numpy': 'np', 'torch': 'torch', 'tensorflow': 'tf', 'jax': 'jax'}


def squeeze(cols):
    """torch keeps a trailing axis of length one on padded signals"""
    def cmp(a, b, m):
        if a[0] == 'value' and b[0] == 'value' and is_av(a[1]) and a[1].fw == 'torch' and a[1].a.ndim == len(m['x'].shape) + 1:
            from ..evalr import AV
            v = a[1]
            if v.a.shape[-1] != 1:
                return 'shape %s' % (v.a.shape,)
            a = ('value', AV(v.a[..., 0], v.dt, 'np'))
        return default_cmp(a, b, m)
    return cmp


def lengths(a, b, m):
    if a[0] == 'raise':
        return None if a[1] == 'AssertionError' else 'raises %s at %s: %s' % (a[1], a[2], a[3])
    (left, right), j1, j2, rows = [force(v) for v in force(a[1])]
    left = num(left)
    J, N, T = m['J'], m['N'], m['T']
    tv = 2 ** J if T in (None, 0, 'global') else T
    ls = int(tv).bit_length() - 1
    if m['stride'] is not None:
        ls = m['stride'].bit_length() - 1
    elif m.get('oversampling'):
        ls -= m['oversampling']
    jtfs = 'J_fr' in m
    for row in rows:
        n, c = [force(v) for v in force(row)]
        n = tuple(num(k) for k in n)
        c = deep(c)
        if not is_av(c):
            return 'no array for path %s' % (n,)
        have = c.a.shape[-1]
        if T == 'global':
            want = 1
        elif T == 0:
            if m['out_type'] == 'array':
                return None
            if jtfs and n:
                continue
            res = 0 if not n else num([j1, j2][len(n) - 1][n[-1]])
            want = -(-(left + N) // 2 ** res) - -(-left // 2 ** res)
        else:
            want = -(-(left + N) // 2 ** ls) - -(-left // 2 ** ls)
        if have != want:
            return 'path %s has %d samples, %d lie on the support of the signal' % (n, have, want)


def lengths2(a, b, m):
    if a[0] == 'raise':
        return None if a[1] == 'AssertionError' else 'raises %s at %s: %s' % (a[1], a[2], a[3])
    want = (m['M'] // 2 ** m['J'], m['N'] // 2 ** m['J'])
    for c in force(a[1]):
        c = deep(c)
        if tuple(c.a.shape[-2:]) != want:
            return 'output of %s samples instead of %s' % (c.a.shape[-2:], want)


def layout(a, b, m):
    if a[0] == 'raise':
        return None if a[1] == 'AssertionError' else 'raises %s at %s: %s' % (a[1], a[2], a[3])
    have, want = [tuple(num(k) for k in force(v)) for v in force(a[1])]
    if have != want:
        return 'pads %s samples (left, right) instead of %s' % (have, want)


# averaging scales and lengths around those where three supports of the low-pass filter on each side fill a power of two
WINDOWS = [(1, 85), (1, 86), (1, 87), (1, 95), (1, 100), (1, 172), (1, 214), (1, 215), (1, 230), (2, 172), (2, 184), (2, 185), (2, 205), (3, 342), (3, 377), (3, 410), (3, 411),
           (4, 342), (4, 380), (4, 381), (4, 430)]


def windows(fam, t):
    def gen(tier, seed):
        yield from fam(tier, seed)
        for T, N in WINDOWS:
            m = dict(J=2, N=N, Q1=1, Q2=1, T=T, stride=None, out_type='list')
            yield dict(m, max_order=1, oversampling=0) if t == '1d' else dict(m, J_fr=1, Q_fr=1, F=None, stride_fr=None, format='joint')
    return gen


def either(a, b, m):
    """a refusal of the filterbank says nothing about padding"""
    if a[0] == 'raise' and a[1] == 'AssertionError':
        return None
    return default_cmp(a, b, m)


def obligations(tier, seed):
    R = range
    # integers
    yield Ob('C17/compute_padding/1d', U1 + '.compute_padding', Term('pad.call_padding1', [Obj(U1, 'compute_padding')] + A('N', 'M'), 'np'), Term('pad.ref_padding1', A('N', 'M'), 'np'),
             seq(300, 4000, 'cp1', lambda r, i: dict(M=int(r.integers(1, 70)), N=int(r.integers(1, 220)) if i % 2 else 2 ** int(r.integers(0, 8)))), internal=True, note='amounts of padding on each side, or a refusal')
    yield Ob('C17/compute_padding/2d', U2 + '.compute_padding', Term('pad.call_padding2', [Obj(U2, 'compute_padding')] + A('M', 'N', 'J'), 'np'), Term('pad.ref_padding2', A('M', 'N', 'J'), 'np'),
             seq(300, 4000, 'cp2', lambda r, i: dict(M=int(r.integers(1, 300)), N=int(r.integers(1, 300)), J=int(r.integers(0, 8)))), internal=True, note='padded sizes')
    yield Ob('C17/border', U1 + '.compute_border_indices', Term('pad.call_border', [Obj(U1, 'compute_border_indices')] + A('T', 'J', 'M', 'N'), 'np'), Term('pad.ref_border', A('T', 'J', 'M', 'N'), 'np'),
             seq(300, 4000, 'bor', lambda r, i: (lambda a: dict(T=int(r.integers(0, 12)), J=int(r.integers(0, 12)), M=a, N=a + int(r.integers(1, 4000))))(int(r.integers(0, 3000)))), internal=True,
             note='first and last sample on the support, at every resolution')

    # primitives
    def m1(legal):
        def make(r, i):
            N = int(pick(r, [1, 2, 3, 4, 5, 7, 8, 13, 16, 31]))
            hi = N if legal else N + 3
            l, rr = int(r.integers(0, hi)), int(r.integers(0, hi))
            if i % 5 == 0:
                l = hi - 1
            if i % 5 == 1:
                rr = hi - 1
            b = pick(r, [(1,), (2,), (2, 1), (1, 3), (2, 1, 3)]) if False else pick(r, [(1, 1), (2, 1), (3, 1)])
            return dict(x=Arr(b + (N,), 'float32', i), left=l, right=rr, step=2 ** int(r.integers(0, 5)))
        return make

    def m2(r, i):
        J = int(pick(r, [0, 1, 1, 2, 2, 3]))
        c = 2 ** J
        side = lambda: int(pick(r, [c, c + 1, 2 * c, 2 * c - 1, 3 * c + c // 2, int(r.integers(c, 4 * c + 1))]))
        # a side of one sample cannot be reflected
        return dict(x=Arr((int(pick(r, [1, 2, 3])), max(side(), 2), max(side(), 2)), 'float32', i), J=J)
    for f in BE:
        b1, b2 = ['kymatio.scattering%sd.backend.%s_backend' % (d, f) for d in '12']
        t = 't' if f == 'torch' else ''
        a1, a2 = A('x', 'left', 'right'), A('x', 'J')
        yield Ob('C17/%s/pad1' % f, b1, Term('pad.reflect1', [Obj(b1, 'backend')] + a1, BE[f]), Term('pad.reflected1', [0] + a1, 'np'), seq(60, 900, 'p1', m1(False)), cmp=squeeze(1),
                 note='reflection of at most N - 1 samples')
        yield Ob('C17/%s/unpad1' % f, b1, Term('pad.back1' + t, [Obj(b1, 'backend')] + a1 + A('step'), BE[f]), Term('pad.kept1', [0] + a1 + A('step'), 'np'), seq(60, 900, 'u1', m1(True)), cmp=squeeze(1),
                 note='unpadding a subsampled padded signal')
        yield Ob('C17/%s/pad2' % f, b2, Term('pad.reflect2', [Obj(b2, 'backend')] + a2, BE[f]), Term('pad.reflected2', [0] + a2, 'np'), seq(40, 500, 'p2', m2), cmp=squeeze(2), note='reflection of an image')
        yield Ob('C17/%s/unpad2' % f, b2, Term('pad.back2' + t, [Obj(b2, 'backend')] + a2, BE[f]), Term('pad.kept2', [0] + a2, 'np'), seq(40, 500, 'u2', m2), cmp=squeeze(2),
                 note='unpadding a subsampled padded image')
    # frontends
    for (t, f) in FRONTENDS:
        if t == '3d':
            continue
        anchor = '%s.%s' % FRONTENDS[(t, f)][:2]
        names = ARGS[t]
        n = {'1d': 40, 'jtfs': 14, '2d': 16}[t] * (2 if f == 'numpy' else 1)
        filt = small(t) if t != '1d' else None
        if t == '1d' and f == 'keras':
            filt = lambda m: m['T'] != 0 and m['stride'] is None
        drv = 'outkeras' + t if f == 'keras' else 'out' + t
        kw = dict(out='array') if f == 'keras' else {}
        yield Ob('C17/%s/%s/length' % (t, f), anchor, Term('pad.' + drv, [Cls(t, f)] + A('x', *names), FWN[f]), lambda m: ('value', None),
                 FAM[t](n, n * 12, dtype='float32', filt=filt, batches=[(2,), (1,), (3,)] if f == 'keras' else [(), (2,), (1, 2)], **kw), cmp=lengths2 if t == '2d' else lengths,
                 note='outputs have as many samples as lie on the support')
        if t == '2d' or f == 'keras':
            continue
        yield Ob('C17/%s/%s/layout' % (t, f), anchor, Term('pad.lay' + t, [Cls(t, f)] + A(*names), FWN[f]), lambda m: ('value', None),
                 windows(FAM[t](2 * n, n * 20, dtype='float32'), t), cmp=layout, internal=True, note='amounts of padding')
        for ot in ('list', 'dict'):
            yield Ob('C17/%s/%s/zero/%s' % (t, f, ot), anchor, Term('pad.zero' + t, [Cls(t, f)] + A('x', *names), FWN[f]), Term('pad.same', [0] + A('x', *names), 'np'),
                     FAM[t](n // 2, n * 6, dtype='float32', out=ot), cmp=either, note='order zero without averaging is the input')
