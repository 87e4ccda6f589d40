"""C29: coefficients follow the symmetries of the signal domain."""
import numpy as np

from ..lemma import Ob, Term, Cls, FWN, FRONTENDS, Arr
from ..evalr import AV, is_av, deep
from ..models import A, ARGS, FAM, rng_of, pick
from .c27 import Bump, flat, fam, TOL, TOL2

EXPLANATION = ('relational obligations on the value graph of every frontend, between its denotations on a signal and on the image of that signal by a symmetry: multiplication by a '
               'constant (all transforms), time reversal (1D; time-frequency, where it exchanges the spins), mirror images and transposition (2D, where they permute the '
               'orientations), mirror images and permutations of the axes (3D with rotation covariance, invariant)')
TECHNIQUE = 'value-graph extraction by abstract interpretation; relational comparison of instances of one graph by random-interpretation value numbering'
NOTE = ('Decided per finite model of the configuration. Mirror images are claimed exactly where the sampling grid itself is symmetric: signals away from the borders for 1D and 2D, odd '
        'sizes for 3D. Rotations by other angles hold only up to discretisation and are not claimed.')
FLOOR = 1


class Map(Arr):
    def __init__(self, parent, fn):
        Arr.__init__(self, fn(np.zeros(parent.shape)).shape, parent.dtype)
        self.parent, self.fn = parent, fn

    def make(self, fw, salt=0):
        v = self.parent.make(fw, salt)
        return AV(np.ascontiguousarray(self.fn(v.a)), v.dt, v.fw)


def paths(v, keys):
    """[(label, array)] of a list or dict output"""
    v = deep(v)
    if isinstance(v, dict):
        return [(k, flat(c)) for k, c in v.items()]
    return [(tuple(num(r[k]) for k in keys), flat(r['coef'])) for r in v]


def num(v):
    if isinstance(v, (tuple, list)):
        return tuple(num(k) for k in v)
    return float(np.asarray(v.a if is_av(v) else v))


def diff(x, y, what, tol=TOL):
    if x.shape != y.shape:
        return '%s: shapes %s and %s' % (what, x.shape, y.shape)
    if not np.all(np.isfinite(x)):
        return '%s is not finite' % what
    if x.size and np.abs(x - y).max() > tol * max(np.abs(x).max(), 1e-30):
        return '%s differs' % what


def raised(a, b):
    if a[0] == 'raise' or b[0] == 'raise':
        if a[0] == b[0]:
            return '' if a[1] == 'AssertionError' else 'raises %s at %s: %s' % (a[1], a[2], a[3])
        return 'raises for a signal and not for its image by a symmetry'


# ---- multiplication by a constant
def scaled(t):
    def cmp(a, b, m):
        r = raised(a, b)
        if r is not None:
            return r or None
        c = m['c']
        if t == '3d':
            x, y = flat(a[1]), flat(b[1])
            if x.shape != y.shape:
                return 'shapes %s and %s' % (x.shape, y.shape)
            for i, q in enumerate(m['integral_powers']):
                r = diff(x[..., i] * abs(c) ** q, y[..., i], 'integrals of power %s of a signal multiplied by %s' % (q, c))
                if r:
                    return r
            return None
        p, q = paths(a[1], ('n',)), paths(b[1], ('n',))
        if len(p) != len(q):
            return 'the number of paths depends on the signal'
        for (k, x), (_, y) in zip(p, q):
            n = k[0] if isinstance(k, tuple) and k and isinstance(k[0], tuple) else k
            r = diff(x * (abs(c) if len(n) else c), y, 'path %s of a signal multiplied by %s' % (n, c))
            if r:
                return r
    return cmp


def m_scaled(t):
    base = FAM[t]
    kw = {} if t == '3d' else {'out': 'list'}
    if t == '2d':
        kw['filt'] = lambda m: m['J'] <= 2 and m['L'] <= 3

    def gen(tier, seed, n):
        for i, m in enumerate(base(n, n, dtype='float32', **kw)(tier, seed + 500)):
            c = [-1., 3., -.25, 100., -1., 1e-2][i % 6]
            yield dict(m, y=Map(m['x'], lambda a, c=c: c * a), c=c)
    return gen


# ---- reversal of time
def m_reverse(t):
    def gen(tier, seed, n):
        for i in range(n):
            r = rng_of(seed, i, 'rev' + t)
            J = int(pick(r, [1, 2, 2, 3] if t == '1d' else [2, 2, 3]))
            T = pick(r, [None, None, 0, 'global', 2 ** int(r.integers(0, J + 1)), 5])
            N = int(pick(r, [512, 480, 544]))
            if T == 'global':
                J, N = min(J, 2), int(pick(r, [768, 800, 736]))
            tt = 2 ** J if T in (None, 0, 'global') else T
            stride = 2 ** int(r.integers(0, int(np.log2(tt)) + 1)) if T not in (0, 'global') and r.random() < .4 else None
            m = dict(J=J, N=N, Q1=int(pick(r, [1, 1, 2, 4])), Q2=int(pick(r, [1, 1, 2])), T=T, stride=stride, max_order=int(pick(r, [1, 2, 2])), oversampling=0, out_type='list')
            if t == 'jtfs':
                J_fr = int(pick(r, [1, 1, 2]))
                del m['max_order'], m['oversampling']
                m.update(J_fr=J_fr, Q_fr=int(pick(r, [1, 1, 2])), F=pick(r, [None, None, 0, 'global', 2 ** int(r.integers(0, J_fr + 1))]), stride_fr=None, format='joint')
            c = N // 2 + int(r.integers(-9, 10))
            x = Bump(pick(r, [(), (2,)]) + (N,), ((c - 4, c + 5),), None, 'float32', i)
            # t -> N - t
            yield dict(m, x=x, y=Map(x, lambda a: np.roll(a[..., ::-1], 1, axis=-1)))
    return gen


def reverse(x, m):
    return x if m['T'] == 'global' else np.concatenate([x[..., :1], x[..., :0:-1]], axis=-1)


def reversed_(t):
    def cmp(a, b, m):
        r = raised(a, b)
        if r is not None:
            return r or None
        swapped = {}
        if t == 'jtfs':
            p, q = (deep(v[1]) for v in (a, b))
            xi = [num(k) for k in p[1]]
            for i, f in enumerate(xi):
                mirror = [k for k, g in enumerate(xi) if abs(f + g) < 1e-9 * max(1, abs(f))]
                if len(mirror) < 1:
                    return 'no frequential filter is the mirror image of filter %d' % i
                swapped[float(i)] = float(mirror[0]) if f else float(i)
            p, q = paths(p[0], ('n',)), paths(q[0], ('n',))
        else:
            p, q = paths(a[1], ('n',)), paths(b[1], ('n',))
        q = dict(q)
        for (n,), x in p:
            k = n
            if t == 'jtfs' and len(n) == 2:
                k = (n[0], swapped[n[1]])
            if (k,) not in q:
                return 'path %s has no counterpart %s for the reversed signal' % (n, k)
            y = q[(k,)]
            # sample 0 mirrors a sample beyond the end
            z = reverse(x, m)
            if m['T'] != 'global':
                z, y = z[..., 1:], y[..., 1:]
            r = diff(z, y, 'path %s of a signal reversed, against path %s of the signal' % (k, n))
            if r:
                return r
    return cmp


# ---- 2D
def m_image(tier, seed, n):
    for i in range(n):
        r = rng_of(seed, i, 'sym2')
        J = 2 if i % 3 == 2 else 1
        s = 2 * 2 ** J
        op = ['rows', 'columns', 'transpose', 'both'][(i + seed) % 4]
        L = int(pick(r, [2, 4] if op == 'transpose' else [1, 2, 3]))
        M, N = [s * int(pick(r, [5, 6, 7] if J == 1 else [4, 5])) for _ in range(2)]
        x = Bump(pick(r, [(), (2,)]) + (M, N), ((M // 2 - 3, M // 2 + 3), (N // 2 - 2, N // 2 + 4)), None, 'float32', i)
        m = dict(J=J, M=M, N=N, L=L, max_order=int(pick(r, [1, 2, 2])) if J > 1 else 2, pre_pad=False, out_type='list', op=op, x=x)
        yield dict(m, y=Map(x, lambda a, op=op: image(a, op)))


def image(a, op):
    if op == 'transpose':
        return np.swapaxes(a, -1, -2)
    if op in ('rows', 'both'):
        a = np.roll(a[..., ::-1, :], 1, axis=-2)
    if op in ('columns', 'both'):
        a = np.roll(a[..., ::-1], 1, axis=-1)
    return a


def other(m, run):
    mm = dict(m, x=m['y'])
    if m.get('op') == 'transpose':
        mm.update(M=m['N'], N=m['M'])
    return run(mm)


def mirrored(a, b, m):
    r = raised(a, b)
    if r is not None:
        return r or None
    L = m['L']
    # orientation k is at the angle (c - k) pi / L
    c = int(L - L / 2 - 1)
    turn = {'rows': lambda k: (2 * c - k) % L, 'columns': lambda k: (2 * c - k) % L, 'both': lambda k: k, 'transpose': lambda k: (2 * c - L // 2 - k) % L}[m['op']]
    p, q = paths(a[1], ('j', 'theta')), dict(paths(b[1], ('j', 'theta')))
    if len(p) != len(q):
        return 'two paths bear the same scales and orientations, or the number of paths depends on the signal'
    for (j, th), x in p:
        k = (j, tuple(turn(t) for t in th))
        if k not in q:
            return 'path of scales %s and orientations %s has no counterpart %s' % (j, th, k[1])
        z = image(x, m['op'])
        y = q[k]
        if m['op'] != 'transpose' and z.shape == y.shape:
            z, y = z[..., 1:, 1:], y[..., 1:, 1:]
        r = diff(z, y, 'path of scales %s and orientations %s, against %s for the %s image' % (j, th, k[1], {'both': 'upside-down', 'transpose': 'transposed'}.get(m['op'], 'mirror')), TOL2)
        if r:
            return r


# ---- 3D
PERMS = [(0, 2, 1), (1, 0, 2), (2, 1, 0), (1, 2, 0), (2, 0, 1), (0, 1, 2)]


def m_volume(tier, seed, n):
    for i in range(n):
        r = rng_of(seed, i, 'sym3')
        perm = PERMS[(i + seed) % 6]
        flips = [] if i % 2 and perm != (0, 1, 2) else [k for k in range(3) if r.random() < .6] or [int(r.integers(0, 3))]
        sh = tuple(int(pick(r, [5, 7, 3, 9] if k in flips else [4, 5, 6, 7])) for k in range(3))
        x = Arr(pick(r, [(), (2,)]) + sh, 'float32', i)
        m = dict(J=int(pick(r, [0, 1, 2])), M=sh[0], N=sh[1], O=sh[2], L=int(pick(r, [1, 2, 3, 2])), sigma_0=pick(r, [1, 1.5, .7]), max_order=int(pick(r, [1, 2])),
                 rotation_covariant=True, method='integral', points=None, integral_powers=pick(r, [(.5, 1., 2.), (1.,), (2., 3.)]), x=x, perm=perm, flips=flips)

        def turn(a, perm=perm, flips=flips):
            k = a.ndim - 3
            for f in flips:
                a = np.flip(a, axis=k + f)
            return np.transpose(a, tuple(range(k)) + tuple(k + p for p in perm))
        yield dict(m, y=Map(x, turn), sizes=tuple(sh[p] for p in perm))


def volume(m, run):
    return run(dict(m, x=m['y'], M=m['sizes'][0], N=m['sizes'][1], O=m['sizes'][2]))


def invariant(a, b, m):
    r = raised(a, b)
    if r is not None:
        return r or None
    return diff(flat(a[1]), flat(b[1]), 'rotation-covariant coefficients of a volume with axes %s and mirrored axes %s' % (m['perm'], m['flips']))


def obligations(tier, seed):
    swap = lambda m, run: run(dict(m, x=m['y']))
    for (t, f) in FRONTENDS:
        if f == 'keras':
            continue
        half = 1 if f == 'numpy' else 2
        where, args, fw = '%s.%s' % FRONTENDS[(t, f)][:2], [Cls(t, f)] + A('x', *ARGS[t]), FWN[f]
        n = {'1d': (20, 200), 'jtfs': (8, 60), '2d': (4, 16), '3d': (16, 160)}[t]
        yield Ob('C29/scale/%s/%s' % (t, f), where, Term('drive.r' + t, args, fw), None, fam(m_scaled(t), n[0] // half, n[1] // half), rel=swap, cmp=scaled(t),
                 note='%s on %s of a signal multiplied by a constant' % (t, f))
        if t in ('1d', 'jtfs'):
            n = {'1d': (12, 120), 'jtfs': (8, 60)}[t]
            yield Ob('C29/reverse/%s/%s' % (t, f), where, Term('drive.r1d' if t == '1d' else 'sym.jtfs', args, fw), None, fam(m_reverse(t), n[0] // half, n[1] // half), rel=swap,
                     cmp=reversed_(t), note='%s on %s of a signal reversed in time' % (t, f))
        elif t == '2d':
            yield Ob('C29/mirror/2d/' + f, where, Term('drive.r2d', args, fw), None, fam(m_image, 8 // half, 24 // half), rel=other, cmp=mirrored,
                     note='2D on %s of mirrored and transposed images' % f)
        else:
            yield Ob('C29/turn/3d/' + f, where, Term('drive.r3d', args, fw), None, fam(m_volume, 24 // half, 240 // half), rel=volume, cmp=invariant,
                     note='3D on %s of volumes with permuted and mirrored axes' % f)
