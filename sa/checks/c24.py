"""C24: filterbanks follow the documented closed forms."""
import numpy as np

from ..lemma import Ob, Term, Cls, Obj, Arr, FWN, FRONTENDS
from ..evalr import is_av, deep, close
from ..models import A, ARGS, FAM, deep2d, rng_of, pick

EXPLANATION = ('value graphs of the filters held by every frontend after construction, at every resolution, and of each function of the filter modules for '
               'arbitrary arguments, against closed forms written independently')
TECHNIQUE = 'value-graph extraction by abstract interpretation; comparison with closed-form specification graphs by random-interpretation value numbering'
NOTE = ('Parameters of each filter (frequency, bandwidth, scale) and its samples at each resolution present are compared; which resolutions exist is C18. Decided '
        'per finite model of the integer parameters. The constant 3.1415 of the 2D Gabor normalisation is taken as documented.')
FLOOR = 1
F1 = 'kymatio.scattering1d.filter_bank'
F2 = 'kymatio.scattering2d.filter_bank'
F3 = 'kymatio.scattering3d.filter_bank'
U3 = 'kymatio.scattering3d.utils'


def flatc(v):
    a = v.a if is_av(v) else np.asarray(v)
    if is_av(v) and v.fw == 'torch' and a.ndim and a.shape[-1] == 1:
        a = a[..., 0]
    return a


def scal(v):
    return float(np.asarray(v.a if is_av(v) else v))


def near(a, b, tol=2e-6):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.abs(a - b).max(initial=0) <= tol * max(np.abs(b).max(initial=0), 1e-30)


def judge(a, b, m):
    if a[0] == 'raise':
        return None if a[1] == 'AssertionError' else 'construction raises %s at %s' % (a[1], a[2])
    counts, rows = a[1]
    for h, w in counts:
        if scal(h) != scal(w):
            return '%d filters where the documented lattice has %d' % (scal(h), scal(w))
    for kind, n, h, w in rows:
        who = '%s %s' % (kind, deep(n) if not is_av(n) else scal(n))
        if not isinstance(h, dict):
            x, y = flatc(h), flatc(w)
            if is_av(h) and h.fw == 'torch' and x.ndim == y.ndim + 1:
                x = x[..., 0] + 1j * x[..., 1]
            if not near(x, y):
                return '%s differs from its closed form' % who
            continue
        for q, name in (('xi', 'centre frequency or angle'), ('sigma', 'bandwidth'), ('j', 'scale')):
            if abs(scal(h[q]) - scal(w[q])) > 1e-9 * max(1e-2, abs(scal(w[q]))):
                return '%s: %s %s instead of %s' % (who, name, scal(h[q]), scal(w[q]))
        if not h['levels']:
            return '%s has no samples' % who
        for k, (x, y) in enumerate(zip(h['levels'], w['levels'])):
            x, y = flatc(x), flatc(y)
            # folded levels are sums of the full-resolution samples
            if not near(x, y, 2e-6 if k == 0 else 2e-6 * max(1., np.abs(flatc(w['levels'][0])).max() / max(np.abs(y).max(initial=0), 1e-30))):
                return '%s at resolution %d differs from its closed form' % (who, k)


def seq(n_quick, n_thorough, tag, make):
    def gen(tier, seed):
        n = n_quick if tier == 'quick' else n_thorough
        for i in range(n):
            r = rng_of(seed, i, tag)
            m = make(r, i)
            if m is not None:
                yield m
    return gen


def U(r, a, b):
    return float(r.uniform(a, b))


def m_factory(r, i):
    J = int(pick(r, [1, 2, 3, 4, 5]))
    Q = pick(r, [(1, 1), (2, 1), (4, 1), (8, 2), (1,), (3,), (2, 2), (1, 2), (), (2, 1, 1)])
    N = 2 ** int(pick(r, [J + 1, J + 2, J + 3]))
    T = pick(r, [2 ** J, 1, max(1, 2 ** (J - 1)), U(r, 1, 2 ** J)])
    return dict(N=N, J=J, Q=Q, T=T, alpha=pick(r, [5., 5., 3., 4.]), sigma0=pick(r, [.1, .1, .13]), r=pick(r, [.5 ** .5, .5, .8]))


def obligations(tier, seed):
    thin = (lambda m: m['J'] <= 2 and m['L'] <= 3) if tier == 'quick' else None
    for (t, f) in FRONTENDS:
        fn = ('k' if f == 'keras' else 'f') + t
        if f == 'keras' and t not in ('1d', '2d'):
            continue
        kw = {}
        if t == '2d' and thin:
            kw['filt'] = thin
        if f == 'keras':
            kw['filt'] = lambda m, t=t: (t != '1d' or (m['T'] != 0 and m['stride'] is None)) and (t != '2d' or not thin or thin(m))
        n = {'1d': (40, 600), 'jtfs': (25, 300), '2d': (10, 40), '3d': (16, 200)}[t]
        if f not in ('numpy', 'torch'):
            n = (n[0] // 2, n[1] // 2)
        models = FAM[t](*n, dtype='float32', **kw)
        if (t, f) == ('2d', 'numpy'):
            models = deep2d(models)
        yield Ob('C24/%s/%s' % (t, f), '%s.%s' % FRONTENDS[(t, f)][:2], Term('bank.' + fn, [Cls(t, f)] + A(*ARGS[t]), FWN[f]), lambda m: ('value', None),
                 models, cmp=judge, internal=True, note='filters held by %s on %s are the documented closed forms' % (t, f))
    from .. import extract
    R = lambda *names: [extract.atom(x, 'real') for x in names]

    def fn(oid, module, name, call, ref, args, models, tol=1e-6, both=False, fargs=(), **kw):
        f = Obj(module, name)
        return Ob('C24/fn/' + oid, '%s.%s' % (module, name), Term('bank.' + call, [f] + list(fargs) + args, 'np'),
                  Term('bank.' + ref, ([f] + list(fargs) if both else []) + args, 'np'), models, tol=tol, internal=True, note='%s is the documented closed form' % name, **kw)
    q = lambda a, b: (a, b)
    Qs = [1, 2, 3, 4, 5, 8, 12, 16]
    yield fn('compute_sigma_psi', F1, 'compute_sigma_psi', 'call_sigma', 'ref_sigma', R('xi') + A('Q1') + R('r'),
             seq(40, 400, 'sig', lambda r, i: dict(xi=U(r, .01, .5), Q1=int(pick(r, Qs)), r=U(r, .1, .95))))
    yield fn('compute_sigma_psi/default', F1, 'compute_sigma_psi', 'call_sigma_default', 'ref_sigma_default', R('xi') + A('Q1'),
             seq(20, 200, 'sigd', lambda r, i: dict(xi=U(r, .01, .5), Q1=int(pick(r, Qs)))))
    yield fn('compute_xi_max', F1, 'compute_xi_max', 'call1', 'ref_xi_max', A('Q1'), seq(16, 32, 'xim', lambda r, i: dict(Q1=i + 1)))
    md = lambda r, i: dict(xi=U(r, -.5, .5) if i % 3 else U(r, -.05, .05), sigma=U(r, .0005, .12) if i % 2 else U(r, .0001, .005), alpha=U(r, 0.5, 6))
    for k in ('', '_kw'):
        yield fn('get_max_dyadic_subsampling' + k, F1, 'get_max_dyadic_subsampling', 'call_dyadic' + k, 'ref_dyadic', R('xi', 'sigma', 'alpha'), seq(80, 1500, 'dyad', md))
    mg = lambda r, i: dict(J=int(pick(r, [1, 2, 3, 4, 5, 6, 8, 10])), Q1=int(pick(r, Qs)), sigma0=pick(r, [.1, .1, .05, .2, 1.]), r=pick(r, [.5 ** .5, .5, .9, .3]))
    yield fn('anden_generator', F1, 'anden_generator', 'call_generator', 'ref_generator', A('J', 'Q1') + R('sigma0', 'r'), seq(60, 800, 'gen', mg))
    yield fn('spin', F1, 'spin', 'call_spin', 'ref_spin', A('J', 'Q1') + R('sigma0', 'r'), seq(40, 400, 'spin', mg), fargs=(Obj(F1, 'anden_generator'),))
    yield fn('morlet_1d', F1, 'morlet_1d', 'call_morlet', 'ref_morlet', A('N') + R('xi', 'sigma'),
             seq(60, 1000, 'mor', lambda r, i: dict(N=int(pick(r, [8, 16, 32, 64, 128, int(r.integers(4, 100))])), xi=U(r, .02, .5) * pick(r, [1, 1, -1]), sigma=pick(r, [U(r, .001, .1), U(r, .1, .9)]))))
    yield fn('gauss_1d', F1, 'gauss_1d', 'call_gauss', 'ref_gauss', A('N') + R('sigma'),
             seq(40, 400, 'gau', lambda r, i: dict(N=int(pick(r, [8, 16, 32, 64, int(r.integers(4, 100))])), sigma=pick(r, [U(r, .002, .1), U(r, .1, .9)]))))
    yield fn('compute_temporal_support', F1, 'compute_temporal_support', 'call_support', 'ref_support', A('x') + R('crit', 'w'),
             seq(60, 600, 'sup', lambda r, i: dict(x=Arr((int(pick(r, [1, 1, 2, 3])), int(pick(r, [8, 16, 33, 64, 20]))), 'float64', i), crit=pick(r, [.2, .3, .5, .7, 1., 2., 4.]), w=pick(r, [0., 1., 2.]))))
    for red in ('sum', 'mean'):
        f, g = Obj(F1, 'scattering_filter_factory'), Obj(F1, 'anden_generator')
        args = A('N', 'J', 'Q') + R('T', 'alpha', 'sigma0', 'r') + [Obj('spec.bank', 'np.' + red)]
        yield Ob('C24/fn/scattering_filter_factory/' + red, F1 + '.scattering_filter_factory', Term('bank.call_factory', [f, g] + args, 'np'),
                 Term('bank.ref_factory', [f, g] + args, 'np'), seq(30, 400, 'fac' + red, m_factory), internal=True, note='the filterbank of arbitrary parameters')
    # 2D
    mgab = lambda r, i: dict(M=int(r.integers(2, 13)), N=int(r.integers(2, 13)), sigma=U(r, .4, 4), theta=U(r, -4, 4), xi=U(r, 0, 3), slant=U(r, .2, 1.5), offset=int(pick(r, [0, 0, 1, -3])))
    ag = A('M', 'N') + R('sigma', 'theta', 'xi', 'slant') + A('offset')
    yield fn('gabor_2d', F2, 'gabor_2d', 'call_gabor', 'gabor_at', ag, seq(30, 400, 'gab', mgab))
    yield fn('morlet_2d', F2, 'morlet_2d', 'call_gabor', 'morlet_at', ag, seq(30, 400, 'mor2', mgab), tol=5e-6)
    yield fn('periodize_filter_fft', F2, 'periodize_filter_fft', 'call_per2', 'ref_per2', A('x', 'k'),
             seq(24, 200, 'per2', lambda r, i: (lambda k: dict(k=k, x=Arr((2 ** k * int(pick(r, [2, 4])), 2 ** k * int(pick(r, [2, 4, 6]))), 'float64', i)))(int(pick(r, [0, 1, 2])))))
    yield fn('filter_bank', F2, 'filter_bank', 'call_bank2', 'ref_bank2', A('M', 'N', 'J', 'L'),
             seq(8, 40, 'fb2', lambda r, i: (lambda J: dict(J=J, L=int(pick(r, [1, 2, 3, 4] + ([8] if J < 3 else []))), M=2 ** J * int(pick(r, [2, 3, 4])), N=2 ** J * int(pick(r, [2, 3]))))(int(pick(r, [1, 2, 2, 3] if tier != 'quick' else [1, 2])))),
             both=True)
    # 3D
    m3 = lambda r, i: dict(M=int(r.integers(2, 8)), N=int(r.integers(2, 8)), O=int(r.integers(2, 8)), sigma=pick(r, [1., .7, 2., 1.5]), fourier=bool(r.random() < .5),
                           l=int(pick(r, [0, 1, 2, 3, 4, 5, 6])), J=int(pick(r, [0, 1, 2, 3, 5, 6])), L=int(pick(r, [0, 1, 2, 3])))
    yield fn('gaussian_3d', F3, 'gaussian_3d', 'call_g3', 'ref_g3', A('M', 'N', 'O') + R('sigma') + A('fourier'), seq(30, 400, 'g3', m3), tol=4e-6)
    yield fn('solid_harmonic_3d', F3, 'solid_harmonic_3d', 'call_s3', 'ref_s3', A('M', 'N', 'O') + R('sigma') + A('l', 'fourier'), seq(40, 600, 's3', m3), tol=8e-6)
    yield fn('solid_harmonic_filter_bank', F3, 'solid_harmonic_filter_bank', 'call_bank3', 'ref_bank3', A('M', 'N', 'O', 'J', 'L') + R('sigma') + A('fourier'), seq(20, 300, 'b3', m3), tol=8e-6)
    yield fn('gaussian_filter_bank', F3, 'gaussian_filter_bank', 'call_gbank3', 'ref_gbank3', A('M', 'N', 'O', 'J') + R('sigma') + A('fourier'), seq(20, 300, 'gb3', m3), tol=4e-6)
    yield fn('double_factorial', U3, 'double_factorial', 'call1', 'ref_dfact', A('l'), seq(16, 20, 'df', lambda r, i: dict(l=i)))
    yield fn('get_3d_angles', U3, 'get_3d_angles', 'call_angles', 'ref_angles', A('x'), seq(8, 60, 'ang', lambda r, i: dict(x=Arr((3, 2 + i % 3, 3, 4), 'float64', i))))
    yield fn('generate_weighted_sum_of_gaussians', U3, 'generate_weighted_sum_of_gaussians', 'call_sum', 'ref_sum', A('x', 'y', 'w') + R('sigma'),
             seq(12, 100, 'ws', lambda r, i: (lambda b, n: dict(x=Arr((3, 2, 3, 4), 'float64', i), y=Arr((b, n, 3), 'float64', i + 1), w=Arr((b, n), 'float64', i + 2, 'somezero'), sigma=U(r, .5, 2)))(int(pick(r, [1, 2, 3])), int(pick(r, [1, 2, 4])))))
