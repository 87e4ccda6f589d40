"""C27: coefficients move with the signal, and a change of a 1D signal is never amplified."""
import numpy as np

from ..lemma import Ob, Term, Cls, FWN, FRONTENDS, Arr
from ..evalr import AV, is_av, force, deep
from ..models import A, ARGS, rng_of, pick, padded2d

EXPLANATION = ('(a) relational obligation on the value graph of every frontend: the denotation on a signal away from the borders (1D, time-frequency, 2D) or on any volume (3D) and on '
               'its translate by a multiple of the largest stride are translates of one another, path by path (equal when the path is a global average); (b) on the extracted 1D and '
               'time-frequency cascades, a bound on the sup-norm gain of each path, computed with a backend whose values carry gains instead of samples (l1 norm of each '
               'filter actually multiplied), is at most one; (c) the same inequality between pairs of instances of the value graph of every frontend')
TECHNIQUE = ('value-graph extraction by abstract interpretation; relational comparison of instances of one graph by random-interpretation value numbering; abstract '
             'interpretation over a gain domain for the amplification bound')
NOTE = ('Decided per finite model of the configuration. Stability to deformations is a theorem about the filters and is not claimed; its code-level premises (gain at most one, '
        'exact translation covariance) are. 2D filters are not normalised in l1, so no gain bound is claimed for 2D and 3D.')
FLOOR = 1
TOL = 2e-5
# 2D filters are cut off at the edge of the band, so they decay slowly
TOL2 = 5e-4


class Bump(Arr):
    """zero except for random samples in a box; moved by `by`"""
    def __init__(self, shape, box, by=None, dtype='float32', seed=0):
        Arr.__init__(self, shape, dtype, seed)
        self.box, self.by = box, by

    def make(self, fw, salt=0):
        rng = np.random.default_rng([self.seed, salt, 78])
        a = np.zeros(self.shape)
        nd = len(self.box)
        ix = (Ellipsis,) + tuple(slice(i, j) for i, j in self.box)
        a[ix] = rng.standard_normal(a[ix].shape)
        if self.by:
            a = np.roll(a, self.by, axis=tuple(range(-nd, 0)))
        return AV(a, self.dtype, self.fw or fw)


class Plus(Arr):
    """parent plus a perturbation"""
    def __init__(self, parent, kind, size):
        Arr.__init__(self, parent.shape, parent.dtype)
        self.parent, self.kind, self.size = parent, kind, size

    def make(self, fw, salt=0):
        v = self.parent.make(fw, salt)
        rng = np.random.default_rng([3, salt, 79])
        n = v.a.shape[-1]
        d = {'constant': np.ones(n), 'alternating': (-1.) ** np.arange(n), 'noise': np.sign(rng.standard_normal(n)), 'square': np.sign(np.sin(2 * np.pi * np.arange(n) / (4 + self.size) + .1))}[self.kind]
        return AV(v.a + self.size * d, v.dt, v.fw)


def flat(v):
    return np.asarray(v.a if is_av(v) else v, dtype=complex if is_av(v) and v.a.dtype.kind == 'c' else float)


def rows(v):
    """label and array of each path"""
    v = deep(v)
    if isinstance(v, dict):
        return [(k, flat(c)) for k, c in v.items()]
    if isinstance(v, (list, tuple)):
        return [(deep(r['n']) if 'n' in r else k, flat(r['coef'])) for k, r in enumerate(v)]
    return [('array', flat(v))]


def lag(total, have, by):
    """translation of an axis of `have` samples when the signal of `total` samples moves by `by`"""
    step = 2 ** int(round(np.log2(total / have)))
    return by // step if by % step == 0 else None


def moved(nd):
    def cmp(a, b, m):
        if a[0] == 'raise' or b[0] == 'raise':
            if a[0] == b[0]:
                return None if a[1] == 'AssertionError' else 'raises %s at %s: %s' % (a[1], a[2], a[3])
            return 'raises for a signal and not for its translate'
        p, q = rows(a[1]), rows(b[1])
        if [k for k, _ in p] != [k for k, _ in q]:
            return 'paths differ between a signal and its translate'
        total, by = m['extent'], m['by']
        tol = TOL2 if nd == 2 else TOL
        for (k, x), (_, y) in zip(p, q):
            if x.shape != y.shape:
                return 'path %s: shapes %s and %s for a signal and its translate' % (k, x.shape, y.shape)
            if not x.size:
                return 'path %s is empty' % (k,)
            if not np.all(np.isfinite(x)):
                return 'path %s is not finite' % (k,)
            scale = np.abs(x).max() or 1.
            if m['still']:
                if np.abs(x - y).max() > tol * scale:
                    return 'path %s is not invariant under a translation by %s' % (k, by)
                continue
            sh = [lag(n, have, d) for n, have, d in zip(total, x.shape[-nd:], by)]
            if None in sh:
                return 'path %s has %s samples for %s of the signal: a translation by %s is not a whole number of them' % (k, x.shape[-nd:], total, by)
            z = np.roll(x, sh, axis=tuple(range(-nd, 0)))
            if np.abs(z - y).max() > tol * scale:
                return 'path %s does not move by %s samples when the signal moves by %s' % (k, tuple(sh), by)
    return cmp


def m_time(t):
    def gen(tier, seed, n):
        for i in range(n):
            r = rng_of(seed, i, 'mv' + t)
            J = int(pick(r, [1, 2, 2, 3] if t == '1d' else [2, 2, 3]))
            T = pick(r, [None, None, 0, 'global', 2 ** int(r.integers(0, J + 1)), 5])
            Q1, Q2 = int(pick(r, [1, 1, 2, 4])), int(pick(r, [1, 1, 2]))
            tt = 2 ** J if T in (None, 0, 'global') else T
            N = int(pick(r, [512, 512, 500, 600, 576]))
            if T == 'global':
                # the reflections must not reach the middle, or they would be summed too
                J, N = min(J, 2), int(pick(r, [780, 800, 760]))
            stride = 2 ** int(r.integers(0, int(np.log2(tt)) + 1)) if T not in (0, 'global') and r.random() < .4 else None
            ot = pick(r, ['list', 'dict', 'array'])
            ov = 0
            if stride is None and T not in (0, 'global') and r.random() < .3:
                ov = int(r.integers(0, int(np.log2(tt)) + 1))
            m = dict(J=J, N=N, Q1=Q1, Q2=Q2, T=T, stride=stride, max_order=int(pick(r, [1, 2, 2])), oversampling=ov, out_type=ot)
            if t == 'jtfs':
                J_fr = int(pick(r, [1, 1, 2]))
                F = pick(r, [None, None, 0, 'global', 2 ** int(r.integers(0, J_fr + 1))])
                fmt = pick(r, ['joint', 'time'])
                del m['max_order'], m['oversampling']
                m.update(J_fr=J_fr, Q_fr=int(pick(r, [1, 1, 2])), F=F, stride_fr=None, format=fmt)
                if ot == 'array' and fmt == 'joint' and F == 0:
                    m['out_type'] = 'list'
            if m['out_type'] == 'array' and T == 0:
                m['out_type'] = 'list'
            by = max(2 ** J, 8) * int(pick(r, [1, 2, -1, 3]))
            c = N // 2
            box = ((c - 5, c + 6),)
            b = pick(r, [(), (2,), (1,), (2, 1)])
            yield dict(m, x=Bump(b + (N,), box, None, 'float32', i), y=Bump(b + (N,), box, (by,), 'float32', i), extent=(N,), by=(by,), still=T == 'global')
    return gen


def m_image(tier, seed, n):
    for i in range(n):
        r = rng_of(seed, i, 'mv2')
        J = int(pick(r, [1, 2] if i % 2 else [1]))
        c = 2 ** J
        M, N = [int(pick(r, [24, 26, 28, 29])) if J == 1 else int(pick(r, [40, 38])) for _ in range(2)]
        pre = bool(r.random() < .3)
        by = (c * int(pick(r, [1, -1])), c * int(pick(r, [0, 1, -1])))
        sh = (M, N)
        if pre:
            sh = padded2d(M, N, J)
        box = tuple((k // 2 - 3, k // 2 + 3) for k in sh)
        b = pick(r, [(), (2,), (1,)])
        ot = pick(r, ['array', 'list'])
        yield dict(J=J, M=M, N=N, L=int(pick(r, [1, 2, 3])), max_order=int(pick(r, [1, 2, 2])) if J > 1 else 2, pre_pad=pre, out_type=ot,
                   x=Bump(b + sh, box, None, 'float32', i), y=Bump(b + sh, box, by, 'float32', i), extent=sh, by=by, still=False)


def m_volume(tier, seed, n):
    for i in range(n):
        r = rng_of(seed, i, 'mv3')
        sh = tuple(int(pick(r, [4, 5, 6, 7, 8])) for _ in range(3))
        by = tuple(int(r.integers(0, k)) for k in sh)
        box = tuple((0, k) for k in sh)
        b = pick(r, [(), (2,), (1,)])
        yield dict(J=int(pick(r, [0, 1, 2])), M=sh[0], N=sh[1], O=sh[2], L=int(pick(r, [0, 1, 2, 3])), sigma_0=pick(r, [1, 1.5, .7]), max_order=int(pick(r, [1, 2])),
                   rotation_covariant=bool(r.random() < .6), method='integral', points=None, integral_powers=pick(r, [(.5, 1., 2.), (1.,), (2., 3.)]),
                   x=Bump(b + sh, box, None, 'float32', i), y=Bump(b + sh, box, by, 'float32', i), extent=sh, by=by, still=True)


def swap(m, run):
    return run(dict(m, x=m['y']))


def m_pair(t):
    def gen(tier, seed, n):
        for i, m in enumerate(m_time(t)(tier, seed + 1000, n)):
            r = rng_of(seed, i, 'pair' + t)
            N = int(pick(r, [64, 100, 128]))
            if t == 'jtfs':
                N = 64
            x = Arr((N,), 'float32', i, pick(r, ['normal', 'zero', 'zero']))
            yield dict(m, N=N, x=x, y=Plus(x, pick(r, ['constant', 'constant', 'alternating', 'noise', 'square']), float(pick(r, [1, 2, .5, 10]))))
    return gen


def contraction(a, b, m):
    if a[0] == 'raise' or b[0] == 'raise':
        a = a if a[0] == 'raise' else b
        return None if a[1] == 'AssertionError' else 'raises %s at %s: %s' % (a[1], a[2], a[3])
    p, q = rows(a[1]), rows(b[1])
    if len(p) != len(q):
        return 'the number of paths depends on the signal'
    d = np.abs(m['x'].make('np').a - m['y'].make('np').a).max()
    if m['T'] == 'global':
        # a sum over the padded signal, at most the next power of two after reflection on both sides
        d *= 8 * m['N']
    if m.get('F') == 'global':
        d *= 4 * (m['J'] + 1) * m['Q1'] + 64
    for (k, x), (_, y) in zip(p, q):
        if x.size and not np.abs(x - y).max() <= d * (1 + 1e-4):
            return 'path %s: a change of the signal by %.4g changes it by %.4g' % (k, d, np.abs(x - y).max())


def gain(a, b, m):
    if a[0] == 'raise':
        return None if a[1] == 'AssertionError' else 'raises %s at %s: %s' % (a[1], a[2], a[3])
    out = deep(a[1])
    if not out:
        return 'no coefficients'
    for n, g in out:
        g = float(np.asarray(g.a if is_av(g) else g))
        if not g <= 1 + 1e-5:
            return 'path %s amplifies a change of the signal by up to %.6g' % (n, g)


def fam(gen, nq, nt):
    return lambda tier, seed: gen(tier, seed, nq if tier == 'quick' else nt)


def obligations(tier, seed):
    from ..models import FAM
    sizes = {'1d': (16, 160), 'jtfs': (8, 60), '2d': (4, 24), '3d': (16, 160)}
    gens = {'1d': m_time('1d'), 'jtfs': m_time('jtfs'), '2d': m_image, '3d': m_volume}
    nd = {'1d': 1, 'jtfs': 1, '2d': 2, '3d': 3}
    for (t, f) in FRONTENDS:
        if f == 'keras':
            continue
        nq, nt = sizes[t]
        if f != 'numpy':
            nq, nt = max(nq // 2, 3), nt // 2
        yield Ob('C27/move/%s/%s' % (t, f), '%s.%s' % FRONTENDS[(t, f)][:2], Term('drive.r' + t, [Cls(t, f)] + A('x', *ARGS[t]), FWN[f]), None, fam(gens[t], nq, nt),
                 rel=swap, cmp=moved(nd[t]), note='coefficients of %s on %s move with the signal' % (t, f))
        if t in ('1d', 'jtfs'):
            yield Ob('C27/pair/%s/%s' % (t, f), '%s.%s' % FRONTENDS[(t, f)][:2], Term('drive.r' + t, [Cls(t, f)] + A('x', *ARGS[t]), FWN[f]), None,
                     fam(m_pair(t), *((24, 240) if t == '1d' else (10, 80))), rel=swap, cmp=contraction, note='%s on %s does not amplify a change of the signal' % (t, f))
    for t in ('1d', 'jtfs'):
        yield Ob('C27/gain/' + t, '%s.%s' % FRONTENDS[(t, 'numpy')][:2], Term('gain.g' + t, [Cls(t, 'numpy')] + A('x', *ARGS[t]), 'np'), lambda m: ('value', None),
                 FAM[t](*((60, 600) if t == '1d' else (40, 300)), dtype='float64', batches=[()]), cmp=gain, internal=True, note='gain of every path of the %s cascade is at most one' % t)
