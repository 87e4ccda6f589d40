"""Families of finite models: assignments of the symbolic parameters and array shapes."""
import numpy as np

from .harvest import dictionary
from .lemma import Arr

BATCHES = [(), (1,), (2,), (3,), (2, 3), (2, 1, 2)]


def rng_of(seed, i, tag):
    return np.random.default_rng([seed, i, sum(map(ord, tag))])


def pick(r, xs):
    return xs[int(r.integers(len(xs)))]


def m1d(r, i, out=None, big=False, local=None):
    J = int(pick(r, [1, 2, 2, 3, 3, 4, 4, 5, 6]))
    if big:
        J = int(pick(r, [5, 6, 7, 8, 9]))
    N = int(pick(r, [2 ** J, 2 ** J + 1, 3 * 2 ** (J - 1), 2 ** (J + 1), int(r.integers(2 ** J, 2 ** (J + 2) + 1)), 5 * 2 ** J, 2 ** (J + 2) - 1]))
    N = max(N, 4)
    Q1 = int(pick(r, [1, 1, 2, 3, 4, 8]))
    Q2 = int(pick(r, [1, 1, 1, 2, 3]))
    T = pick(r, [None, None, 0, 'global', 'rand', 'rand', 'pow'])
    if local:
        T = pick(r, [None, 'rand', 'pow'])
    if T == 'rand':
        T = int(r.integers(1, N + 1))
    elif T == 'pow':
        T = 2 ** int(r.integers(0, J + 1))
    mo = int(pick(r, [1, 2, 2, 2]))
    ov = int(pick(r, [0, 0, 0, 1, 2]))
    ot = out or pick(r, ['array', 'list', 'dict'])
    if T == 0 and ot == 'array':
        ot = 'list' if out is None else out
    stride = None
    if ov == 0 and T not in (0, 'global') and r.random() < 0.35:
        tt = 2 ** J if T is None else T
        stride = 2 ** int(r.integers(0, int(np.log2(tt)) + 1))
    if T in (0, 'global'):
        ov = 0
    else:
        ov = min(ov, int(np.log2(2 ** J if T is None else T)))
    return dict(J=J, N=N, Q1=Q1, Q2=Q2, T=T, stride=stride, max_order=mo, oversampling=ov, out_type=ot)


def around(c):
    return [c, c + 1] if c == int(c) and c > 0 else []


def indirect(c):
    """parameters whose usual derived counts (a power of two, an odd or even count) meet the constant"""
    out = []
    if c == int(c) and c > 5:
        c = int(c)
        out += [c // 2, c // 2 + 1]
        if c & (c - 1) == 0 and c >= 16:
            out += [c.bit_length() - 1, c.bit_length()]
        if c <= 12:
            out += [2 ** c]
    return out


def scales():
    return [s for c in dictionary() for s in (4. * c, c / 4.) if 1e-6 < s < 1e8]


def extra1d(filt, out, **kw):
    """models around the constants of the sources"""
    base = dict(J=2, N=32, Q1=2, Q2=1, T=None, stride=None, max_order=2, oversampling=0, out_type=out or 'list')
    if kw.get('local') is None:
        base['out_type'] = out or 'array'
    dt = kw.get('dtype') or 'float32'
    i = 0

    def make(m, shape, dist='normal'):
        nonlocal i
        i += 1
        m = dict(base, **m)
        if i % 3 == 1 and out is None:
            m['out_type'] = 'list'
        if (not filt or filt(m)) and fits(kw.get('batches'), shape):
            yield dict(m, x=Arr(shape + (m['N'],), dt, 900 + i, dist if kw.get('dist') is None else kw['dist']))
    for c in dictionary():
        for v in around(int(c) if c == int(c) else 0):
            if v <= 11:
                yield from make(dict(J=v, N=2 ** max(v, 3) + 3, Q1=1), ())
            if 8 <= v <= 20000:
                yield from make(dict(J=2 if v < 64 else 3, N=v), ())
            if v <= 32:
                yield from make(dict(J=4, N=96, Q1=v, max_order=1 + v % 2), ())
            if v <= 5:
                yield from make(dict(J=4, N=96, Q2=v), ())
                yield from make({}, (1,) * (v - 1) + (2,))
            if v <= 2048:
                yield from make(dict(J=3, N=max(2 * v, 64), T=v), ())
            if v <= 512:
                yield from make(dict(N=16, J=1, Q1=1), (v,))
            if v <= 6:
                yield from make(dict(J=v + 1, N=2 ** (v + 2), Q1=1, oversampling=v), ())
            if v <= 256 and v & (v - 1) == 0:
                yield from make(dict(J=max(v.bit_length() - 1, 1), N=4 * max(v, 4), stride=v), ())
            if 4 < v <= 100:
                yield from make(dict(J=5, N=128, Q1=min(-(-(v + 4) // 5), 24)), ())
        for v in indirect(c):
            if v <= 9:
                yield from make(dict(J=v, N=2 ** max(v, 3), Q1=1), ())
            if v <= 12:
                yield from make(dict(J=4, N=64, Q1=v), ())
            if 8 <= v <= 4096:
                yield from make(dict(N=v), ())
            if v <= 512:
                yield from make(dict(J=3, N=max(2 * v, 64), T=v), ())
    for v in scales():
        yield from make({}, (2,), 'scale:%r' % v)
    # longest padding that the signal allows; exactly three supports on each side; slightly more than that
    for m in (dict(J=3, N=11, Q1=1), dict(J=5, N=43, Q1=1), dict(J=2, N=5, Q1=1, T=4), dict(J=2, N=86, Q1=1, T=1), dict(J=2, N=87, Q1=1, T=1)):
        yield from make(m, ())
    yield from make(dict(J=8, N=256, Q1=1, T=64), ())


def extrajtfs(filt, out, fmt, **kw):
    base = dict(J=3, J_fr=1, N=32, Q1=1, Q2=1, T=None, stride=None, Q_fr=1, F=None, stride_fr=None, out_type=out or 'list', format=fmt or 'joint')
    dt = kw.get('dtype') or 'float32'
    i = 0

    def make(m, shape, dist='normal'):
        nonlocal i
        i += 1
        m = dict(base, **m)
        if fmt is None and i % 2:
            m['format'] = 'time'
        if out is None and i % 3:
            m['out_type'] = 'array'
        if (not filt or filt(m)) and fits(kw.get('batches'), shape):
            yield dict(m, x=Arr(shape + (m['N'],), dt, 900 + i, dist if kw.get('dist') is None else kw['dist']))
    for c in dictionary():
        for v in around(int(c) if c == int(c) else 0):
            if v <= 9:
                yield from make(dict(J=v, N=2 ** max(v, 3) + 3), ())
            if 8 <= v <= 4096:
                yield from make(dict(N=v), ())
            if v <= 12:
                yield from make(dict(J=4, N=64, Q1=v), ())
            if v <= 4:
                yield from make(dict(J=4, N=64, Q1=8, J_fr=v), ())
                yield from make(dict(J=4, N=64, Q1=4, J_fr=2, Q_fr=v), ())
            if v <= 5:
                yield from make({}, (1,) * (v - 1) + (2,))
            if v <= 1024:
                yield from make(dict(J=3, N=max(2 * v, 64), T=v), ())
            if v <= 8:
                yield from make(dict(J=4, N=64, Q1=4, J_fr=3, F=v), ())
            if v <= 256:
                yield from make(dict(N=16, J=2), (v,))
            if v <= 128 and v & (v - 1) == 0:
                yield from make(dict(J=max(v.bit_length() - 1, 2), N=4 * max(v, 8), stride=v), ())
            if 4 < v <= 60:
                yield from make(dict(J=5, N=128, Q1=min(-(-(v + 4) // 5), 12)), ())
        for v in indirect(c):
            if v <= 9:
                yield from make(dict(J=v, N=2 ** max(v, 3)), ())
            if v <= 8:
                yield from make(dict(J=4, N=64, Q1=v), ())
            if 8 <= v <= 4096:
                yield from make(dict(N=v), ())
    for v in scales():
        yield from make({}, (2,), 'scale:%r' % v)
    for m in (dict(J=3, N=11), dict(J=5, N=43, J_fr=2), dict(J=4, N=16, Q1=8, J_fr=4, Q2=2)):
        yield from make(m, ())


def extra2d(filt, out, pre, **kw):
    base = dict(J=1, M=8, N=8, L=1, max_order=2, pre_pad=bool(pre), out_type=out or 'array')
    dt = kw.get('dtype') or 'float32'
    i = 0

    def make(m, shape, dist='normal'):
        nonlocal i
        i += 1
        m = dict(base, **m)
        if (not filt or filt(m)) and fits(kw.get('batches'), shape):
            sh = (m['M'], m['N']) if not m['pre_pad'] else padded2d(m['M'], m['N'], m['J'])
            yield dict(m, x=Arr(shape + sh, dt, 900 + i, dist if kw.get('dist') is None else kw['dist']))
    for c in dictionary():
        for v in around(int(c) if c == int(c) else 0):
            if v <= 4:
                yield from make(dict(J=v, M=2 ** v, N=2 ** v), ())
            if 4 <= v <= 80:
                yield from make(dict(M=v, N=8), ())
                yield from make(dict(M=8, N=v), ())
            if 32 < v <= 1024:
                # number of pixels
                yield from make(dict(M=8, N=-(-v // 8)), ())
            if v <= 17:
                yield from make(dict(J=2 if v < 6 else 1, L=v), ())
            if v <= 5:
                yield from make({}, (1,) * (v - 1) + (2,))
            if v <= 130:
                yield from make(dict(M=4, N=4), (v,))
        for v in indirect(c):
            if v <= 4:
                yield from make(dict(J=v, M=2 ** v, N=2 ** v), ())
            if v <= 17:
                yield from make(dict(J=2 if v < 6 else 1, L=v), ())
            if 4 <= v <= 80:
                yield from make(dict(M=v, N=8), ())
    for v in scales():
        yield from make({}, (2,), 'scale:%r' % v)
    # many scales, many angles
    for m in (dict(J=4, M=16, N=16), dict(J=1, L=8), dict(J=2, L=6, M=4, N=5)):
        yield from make(m, ())


def extra3d(filt, **kw):
    base = dict(J=1, M=4, N=5, O=4, L=1, sigma_0=1, max_order=2, rotation_covariant=True, method='integral', points=None, integral_powers=(.5, 1., 2.))
    dt = kw.get('dtype') or 'float32'
    i = 0

    def make(m, shape, dist='normal'):
        nonlocal i
        i += 1
        m = dict(base, **m)
        if not i % 4:
            m['rotation_covariant'] = False
        if (not filt or filt(m)) and fits(kw.get('batches'), shape):
            yield dict(m, x=Arr(shape + (m['M'], m['N'], m['O']), dt, 900 + i, dist if kw.get('dist') is None else kw['dist']))
    for c in dictionary():
        if c <= 16:
            yield from make(dict(integral_powers=(float(c), 1.)), ())
            yield from make(dict(sigma_0=float(c)), ())
        for v in around(int(c) if c == int(c) else 0):
            if v <= 5:
                yield from make(dict(J=v), ())
                yield from make({}, (1,) * (v - 1) + (2,))
                yield from make(dict(integral_powers=tuple(.5 + k / 2. for k in range(v))), ())
            if v <= 40:
                for k in 'MNO':
                    yield from make({k: v}, ())
            if v <= 6:
                yield from make(dict(L=v), ())
            if v <= 64:
                yield from make(dict(M=4, N=3, O=4, L=0), (v,))
        for v in indirect(c):
            if v <= 5:
                yield from make(dict(J=v), ())
            if v <= 8:
                yield from make(dict(L=v), ())
            if v <= 40:
                yield from make(dict(M=v), ())
    for v in scales():
        yield from make({}, (2,), 'scale:%r' % v)
    # many scales, many degrees
    for m in (dict(J=4, L=0), dict(J=0, L=6), dict(J=1, L=5), dict(J=1, L=5, rotation_covariant=False)):
        yield from make(m, ())


def fits(batches, shape):
    """batch shapes outside a restricted family stay out"""
    if batches is None or shape in batches:
        return True
    return len(shape) in {len(b) for b in batches if len(b)} if shape else False


def with_x(m, r, i, shape, dist='normal', batches=BATCHES, dtype=None):
    b = batches[i % len(batches)] if i < 2 * len(batches) else pick(r, batches)
    dt = dtype or ['float32', 'float64'][i % 2]
    return dict(m, x=Arr(b + shape, dt, i, dist))


def fam1d(n_quick, n_thorough, out=None, local=None, filt=None, **kw):
    def gen(tier, seed):
        n = n_quick if tier == 'quick' else n_thorough
        k = 0
        i = 0
        while k < n and i < 20 * n + 50:
            r = rng_of(seed, i, '1d')
            m = m1d(r, i, out, big=(i % 11 == 10), local=local)
            i += 1
            if out and m['T'] == 0 and out == 'array':
                continue
            if filt and not filt(m):
                continue
            k += 1
            yield with_x(m, r, k, (m['N'],), **kw)
        yield from extra1d(filt, out, local=local, **kw)
    return gen


def mjtfs(r, i, out=None, fmt=None):
    J = int(pick(r, [2, 3, 4, 4, 5]))
    N = int(pick(r, [2 ** J, 2 ** (J + 1), 2 ** (J + 2), int(r.integers(2 ** J, 2 ** (J + 2))), 100]))
    N = max(N, 2 ** J, 8)
    Q1 = int(pick(r, [1, 2, 3, 4]))
    Q2 = int(pick(r, [1, 1, 2]))
    nfr = (J + 1) * Q1
    J_fr = int(r.integers(1, max(2, int(np.log2(nfr)) + 1)))
    T = pick(r, [None, None, 0, 'global', 'pow', 'rand'])
    if T == 'rand':
        T = int(r.integers(2, N + 1))
    elif T == 'pow':
        T = 2 ** int(r.integers(1, J + 1))
    F = pick(r, [None, None, 0, 'global', 'pow'])
    if F == 'pow':
        F = 2 ** int(r.integers(0, J_fr + 1))
    Q_fr = int(pick(r, [1, 1, 2]))
    format = fmt or pick(r, ['joint', 'time'])
    ot = out or pick(r, ['array', 'list', 'dict'])
    if ot == 'array' and (T == 0 or (format == 'joint' and F == 0)):
        ot = 'list' if out is None else out
    stride = stride_fr = None
    if T not in (0, 'global') and r.random() < 0.3:
        stride = 2 ** int(r.integers(0, int(np.log2(2 ** J if T is None else T)) + 1))
    if F not in (0, 'global') and r.random() < 0.3:
        stride_fr = 2 ** int(r.integers(0, int(np.log2(2 ** J_fr if F is None else F)) + 1))
    return dict(J=J, J_fr=J_fr, N=N, Q1=Q1, Q2=Q2, T=T, stride=stride, Q_fr=Q_fr, F=F, stride_fr=stride_fr, out_type=ot, format=format)


def famjtfs(n_quick, n_thorough, out=None, fmt=None, filt=None, **kw):
    def gen(tier, seed):
        n = n_quick if tier == 'quick' else n_thorough
        k = i = 0
        while k < n and i < 20 * n + 50:
            r = rng_of(seed, i, 'jtfs')
            m = mjtfs(r, i, out, fmt)
            i += 1
            if out == 'array' and (m['T'] == 0 or (m['format'] == 'joint' and m['F'] == 0)):
                continue
            if filt and not filt(m):
                continue
            k += 1
            yield with_x(m, r, k, (m['N'],), **kw)
        yield from extrajtfs(filt, out, fmt, **kw)
    return gen


def padded2d(M, N, J):
    c = 2 ** J
    return ((M + c) // c + 1) * c, ((N + c) // c + 1) * c


def m2d(r, i, out=None, pre=None):
    J = int(pick(r, [1, 1, 2, 2, 3] if i % 8 else [3]))
    c = 2 ** J
    M = int(pick(r, [c, 2 * c, int(r.integers(c, 3 * c + 1)), 2 * c + 1, 3 * c]))
    N = int(pick(r, [c, 2 * c, int(r.integers(c, 3 * c + 1)), 2 * c + 1, 3 * c]))
    M, N = max(M, 2), max(N, 2)
    L = int(pick(r, [1, 2, 2, 3, 4]))
    mo = int(pick(r, [1, 2, 2]))
    pre_pad = bool(r.random() < 0.25) if pre is None else pre
    return dict(J=J, M=M, N=N, L=L, max_order=mo, pre_pad=pre_pad, out_type=out or pick(r, ['array', 'list']))


def fam2d(n_quick, n_thorough, out=None, pre=None, filt=None, batches=BATCHES, **kw):
    def gen(tier, seed):
        n = n_quick if tier == 'quick' else n_thorough
        k = i = 0
        while k < n and i < 20 * n + 50:
            r = rng_of(seed, i, '2d')
            m = m2d(r, i, out, pre)
            i += 1
            if filt and not filt(m):
                continue
            k += 1
            sh = (m['M'], m['N']) if not m['pre_pad'] else padded2d(m['M'], m['N'], m['J'])
            yield with_x(m, r, k, sh, batches=batches, **kw)
        yield from extra2d(filt, out, pre, batches=None if batches is BATCHES else batches, **kw)
    return gen


def deep2d(gen, quick=(5,), thorough=(5,)):
    """GEN followed by one model of each scale of QUICK (THOROUGH): as many scales as an image of 2**J pixels a side has."""
    def more(tier, seed):
        yield from gen(tier, seed)
        for J in quick if tier == 'quick' else thorough:
            yield dict(J=J, M=2 ** J, N=2 ** J, L=1, max_order=2, pre_pad=False, out_type='array', x=Arr((2 ** J, 2 ** J), 'float32', 70 + J))
    return more


def m3d(r, i):
    J = int(pick(r, [0, 1, 1, 2, 2, 3]))
    sh = [int(pick(r, [4, 5, 6, 7, 8, 9])) for _ in range(3)]
    L = int(pick(r, [0, 1, 2, 2, 3, 4]))
    return dict(J=J, M=sh[0], N=sh[1], O=sh[2], L=L, sigma_0=pick(r, [1, 1, 0.7, 1.5, 2]), max_order=int(pick(r, [1, 2, 2])),
                rotation_covariant=bool(r.random() < 0.65), method='integral', points=None,
                integral_powers=pick(r, [(0.5, 1., 2.), (1.,), (2., 1.), (1., 2., 3., .5), [0.5, 1., 2.], (4., .25), [1.5, 5.]]))


def fam3d(n_quick, n_thorough, filt=None, **kw):
    def gen(tier, seed):
        n = n_quick if tier == 'quick' else n_thorough
        k = i = 0
        while k < n and i < 20 * n + 50:
            r = rng_of(seed, i, '3d')
            m = m3d(r, i)
            i += 1
            if filt and not filt(m):
                continue
            k += 1
            yield with_x(m, r, k, (m['M'], m['N'], m['O']), **kw)
        yield from extra3d(filt, **kw)
    return gen


FAM = {'1d': fam1d, 'jtfs': famjtfs, '2d': fam2d, '3d': fam3d}


def A(*names):
    from .extract import atom
    kinds = {'N': 'int', 'M': 'int', 'O': 'int', 'Q_fr': 'int', 'Q1': 'int', 'Q2': 'int', 'x': 'array', 'y': 'array', 'w': 'array', 'z': 'array'}
    return [atom(n, kinds.get(n, 'any')) for n in names]


ARGS = {
    '1d': ['J', 'N', 'Q1', 'Q2', 'T', 'stride', 'max_order', 'oversampling', 'out_type'],
    'jtfs': ['J', 'J_fr', 'N', 'Q1', 'Q2', 'T', 'stride', 'Q_fr', 'F', 'stride_fr', 'out_type', 'format'],
    '2d': ['J', 'M', 'N', 'L', 'max_order', 'pre_pad', 'out_type'],
    '3d': ['J', 'M', 'N', 'O', 'L', 'sigma_0', 'max_order', 'rotation_covariant', 'method', 'points', 'integral_powers'],
}
