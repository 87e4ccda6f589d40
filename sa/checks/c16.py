"""C16: band-pass filters have zero mean, low-pass filters unit gain."""
import numpy as np

from ..lemma import Ob, Term, Cls, Obj, FWN, FRONTENDS
from ..evalr import is_av, deep, force
from ..models import A, ARGS, FAM, pick
from .. import extract
from .c19 import num
from .c24 import seq, U, flatc

EXPLANATION = ('value graphs of the filters held by every frontend, at every resolution, evaluated at frequency zero; of the coefficients of a constant signal on every '
               'frontend; and of the Morlet, Gaussian and 2D Morlet functions for arbitrary arguments')
TECHNIQUE = 'value-graph extraction by abstract interpretation; random-interpretation value numbering of the response at frequency zero, the norm and the coefficients of a constant'
NOTE = ('Decided per finite model of the configuration. 1D wavelets vanish at frequency zero at full resolution only: coarser versions hold the folded response outside the band. '
        'The gain of the 2D low-pass is 1 within 2e-4 (the code writes pi as 3.1415).')
FLOOR = 1
F1, F2 = 'kymatio.scattering1d.filter_bank', 'kymatio.scattering2d.filter_bank'


def real(v, who):
    a = flatc(v)
    if np.iscomplexobj(a):
        return None
    return a


def bank(a, b, m):
    if a[0] == 'raise':
        return None if a[1] == 'AssertionError' else 'construction raises %s at %s' % (a[1], a[2])
    for row in force(a[1]):
        kind, n, levels = [force(v) for v in force(row)]
        n = int(num(n))
        who = '%s %d' % (deep(kind), n)
        kind = deep(kind)
        for k, f in enumerate(levels):
            v = deep(f)
            x = v.a if is_av(v) else np.asarray(v)
            if not np.all(np.isfinite(x)):
                return '%s is not finite' % who
            if kind in ('gaussian', 'solid'):
                x = flatc(v)
                g = x[..., 0, 0, 0] if is_av(v) and v.fw != 'torch' or x.ndim == 3 + (kind == 'solid') + 1 else x[..., 0, 0, 0, :]
                top = np.abs(x).max()
                if kind == 'gaussian' and np.abs(g - 1).max() > 1e-5:
                    if not (g.ndim == 2 and g.shape[-1] == 2 and np.abs(g[..., 0] - 1).max() <= 1e-5 and np.abs(g[..., 1]).max() <= 1e-5):
                        return 'low-pass gain %s at frequency zero' % np.ravel(g)[:4]
                if kind == 'solid' and n > 0 and np.abs(g).max() > 1e-6 * top:
                    return 'solid harmonics of degree %d respond %.2g to frequency zero' % (n, np.abs(g).max())
                continue
            x = real(v, who)
            if x is None:
                return '%s is complex in the Fourier domain' % who
            top = np.abs(x).max()
            if top == 0:
                return '%s is zero' % who
            if kind in ('psi', 'phi2'):
                z = x[0, 0]
                if kind == 'psi' and abs(z) > 2e-6 * top:
                    return '%s responds %.2g to frequency zero at resolution %d' % (who, z, k)
                if kind == 'phi2' and abs(z - 1) > 4e-4 and k == 0:
                    return 'low-pass gain %.6g at frequency zero' % z
                continue
            if k > 0:
                continue
            z, l1 = x[0], np.abs(np.fft.ifft(x)).sum()
            if kind in ('psi1', 'psi2', 'psi_fr') and abs(z) > 2e-6 * top:
                return '%s responds %.2g to frequency zero' % (who, z)
            if kind in ('phi', 'phi_fr') and abs(z - 1) > 1e-5:
                return '%s has gain %.6g at frequency zero' % (who, z)
            if abs(l1 - 1) > 1e-5:
                return '%s has l1 norm %.6g' % (who, l1)


def constant(a, b, m):
    if a[0] == 'raise':
        return None if a[1] == 'AssertionError' else 'raises %s at %s' % (a[1], a[2])
    for row in force(a[1]):
        order, c = [force(v) for v in force(row)]
        order = int(num(order))
        c = deep(c)
        if not is_av(c):
            return 'no array'
        if order > 0 and c.a.size and not np.abs(c.a).max() <= 2e-5 * (m['M'] * m['N'] * m['O'] if 'O' in m else 1):
            return 'a constant signal has a coefficient %.3g at order %d' % (np.abs(c.a).max(), order)


def ones(gen):
    """the same models, the array a constant of size at most one"""
    def make(tier, seed):
        for m in gen(tier, seed):
            yield m
    return make


def obligations(tier, seed):
    thin = (lambda m: m['J'] <= 2 and m['L'] <= 3) if tier == 'quick' else None
    for (t, f) in FRONTENDS:
        anchor = '%s.%s' % FRONTENDS[(t, f)][:2]
        k = 'k' if f == 'keras' else ''
        kw = {'out': 'array'} if k else {}
        if t == '2d' and thin:
            kw['filt'] = thin
        if k:
            kw['filt'] = lambda m, t=t: (t != '1d' or (m['T'] != 0 and m['stride'] is None)) and (t != '2d' or not thin or thin(m))
        n = {'1d': (40, 600), 'jtfs': (24, 300), '2d': (10, 40), '3d': (16, 200)}[t]
        if f not in ('numpy', 'torch'):
            n = (n[0] // 2, n[1] // 2)
        yield Ob('C16/%s/%s/filters' % (t, f), anchor, Term('mean.' + (k or 'f') + t, [Cls(t, f)] + A(*ARGS[t]), FWN[f]), lambda m: ('value', None), FAM[t](*n, dtype='float32', **kw),
                 cmp=bank, internal=True, note='response at frequency zero and norm of each filter')
        kw.pop('out', None)
        if k:
            kw['out'] = 'array'
        n = {'1d': (24, 300), 'jtfs': (10, 150), '2d': (8, 40), '3d': (8, 100)}[t]
        if f == 'numpy':
            n = (2 * n[0], 2 * n[1])
        yield Ob('C16/%s/%s/constant' % (t, f), anchor, Term('mean.c' + k + t, [Cls(t, f)] + A('x', *ARGS[t]), FWN[f]), lambda m: ('value', None),
                 FAM[t](*n, dtype='float32', dist='const', **dict(kw, **({'batches': [(2,), (1,)]} if k else {}))), cmp=constant, note='a constant signal has no first or second order')
    R = lambda *names: [extract.atom(x, 'real') for x in names]
    wide = lambda r, i: dict(N=int(pick(r, [8, 16, 32, 64, 128, int(r.integers(4, 100))])), xi=U(r, .02, .5) * pick(r, [1, 1, -1]), sigma=pick(r, [U(r, .004, .1), U(r, .1, .4)]))
    yield Ob('C16/fn/morlet_1d', F1 + '.morlet_1d', Term('mean.at_zero', [Obj(F1, 'morlet_1d')] + A('N') + R('xi', 'sigma'), 'np'), Term('mean.unit', A('N') + R('xi', 'sigma'), 'np'),
             seq(80, 1500, 'z1', wide), tol=1e-9, internal=True, note='wavelet: zero at frequency zero, unit l1 norm')
    yield Ob('C16/fn/gauss_1d', F1 + '.gauss_1d', Term('mean.at_zero_low', [Obj(F1, 'gauss_1d')] + A('N') + R('sigma'), 'np'), Term('mean.unit_low', A('N') + R('sigma'), 'np'),
             seq(60, 800, 'z0', wide), tol=1e-6, internal=True, note='low-pass: unit gain and l1 norm')
    mgab = lambda r, i: dict(M=int(r.integers(2, 16)), N=int(r.integers(2, 16)), sigma=U(r, .4, 4), theta=U(r, -4, 4), xi=U(r, 0, 3), slant=U(r, .2, 1.5), offset=int(pick(r, [0, 0, 1, -3])))
    ag = A('M', 'N') + R('sigma', 'theta', 'xi', 'slant') + A('offset')
    yield Ob('C16/fn/morlet_2d', F2 + '.morlet_2d', Term('mean.mean2', [Obj(F2, 'morlet_2d')] + ag, 'np'), Term('mean.nothing', ag, 'np'), seq(40, 600, 'z2', mgab),
             cmp=lambda a, b, m: ('raises ' + a[1]) if a[0] == 'raise' else (None if abs(complex(np.asarray(deep(a[1]).a if is_av(deep(a[1])) else deep(a[1])))) <= 2e-5 else 'the mean is %s' % deep(a[1])),
             internal=True, note='2D wavelet: zero sum')
