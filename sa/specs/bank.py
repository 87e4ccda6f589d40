"""The filterbanks held by a transform, next to their documented closed forms."""
import math
import numpy as np
from scipy.special import sph_harm, factorial
from spec.drive import b1d, bjtfs, b2d, b3d
from spec.ref1d import parse, morlet, lattice, scale, bank, per
from spec.refjtfs import banks_fr
from spec.ref2d import bank as bank2, phi_hat, per as per2
from spec.ref3d import solid, freqs, dfact


def have(p):
    return {'xi': p['xi'], 'sigma': p['sigma'], 'j': p['j'], 'levels': [f for f in p['levels']]}


def want(xi, sigma, j, f, p):
    return {'xi': xi, 'sigma': sigma, 'j': j, 'levels': [per(f, k) for k in range(len(p['levels']))]}


def pairs(kind, impl, ref):
    """[(label, held filter, closed form)]"""
    return [(kind, n, have(p), want(ref[n]['xi'], ref[n]['sigma'], ref[n]['j'], ref[n]['f'], p)) for n, p in enumerate(impl)]


def of1d(S, J, N, Q1, Q2, T):
    Np = S.pad_left + N + S.pad_right
    Tv = parse(T, J, N)[0]
    l2 = int(math.floor(math.log2(Tv)))
    b1 = bank(Np, J, Q1)
    b2 = bank(Np, J, Q2)
    phi = [('phi', 0, have(S.phi_f), want(0, 0.1 / Tv, l2, morlet(Np, None, 0.1 / Tv), S.phi_f))]
    counts = [(len(S.psi1_f), len(b1)), (len(S.psi2_f), len(b2))]
    return counts, phi + pairs('psi1', S.psi1_f, b1) + pairs('psi2', S.psi2_f, b2)


def f1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)
    return of1d(S, J, N, Q1, Q2, T)


def k1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = cls(J, Q=(Q1, Q2), T=T, max_order=max_order, oversampling=oversampling)
    S.build((None, N))
    return of1d(S.S, J, N, Q1, Q2, T)


def fjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    counts, res = of1d(S, J, N, Q1, Q2, T)
    Fv = parse(F, J_fr, (J + 1) * Q1)[0]
    n = (((J + 1) * Q1 + 8 * min(Fv, 2 ** J_fr)) // 2 ** J_fr) * 2 ** J_fr
    phi0, psis = S.filters_fr
    lat = lattice(J_fr, Q_fr)
    ref = [{'xi': 0, 'sigma': 0.1 / 2 ** J_fr, 'j': J_fr, 'f': morlet(n, None, 0.1 / 2 ** J_fr)}]
    for s in (1, -1):
        ref = ref + [{'xi': s * xi, 'sigma': sg, 'j': scale(xi, sg), 'f': morlet(n, s * xi, sg)} for (xi, sg) in lat]
    phi = [('phi_fr', 0, have(phi0), want(0, 0.1 / Fv, int(math.floor(math.log2(Fv))), morlet(n, None, 0.1 / Fv), phi0))]
    return counts + [(len(psis), len(ref))], res + phi + pairs('psi_fr', psis, ref)


def of2d(S, J, M, N, L):
    c = 2 ** J
    Mp = ((M + c) // c + 1) * c
    Np = ((N + c) // c + 1) * c
    ref = bank2(Mp, Np, J, L)
    phi = phi_hat(Mp, Np, J)
    res = [('phi', 0, {'xi': 0, 'sigma': 0, 'j': S.phi['j'], 'levels': [f for f in S.phi['levels']]},
            {'xi': 0, 'sigma': 0, 'j': J, 'levels': [per2(phi, k) for k in range(len(S.phi['levels']))]})]
    for n, p in enumerate(S.psi):
        r = ref[n]
        res = res + [('psi', n, {'xi': p['theta'], 'sigma': 0, 'j': p['j'], 'levels': [f for f in p['levels']]},
                      {'xi': r['theta'], 'sigma': 0, 'j': r['j'], 'levels': [per2(r['f'], k) for k in range(len(p['levels']))]})]
    return [(len(S.psi), len(ref))], res


def f2d(cls, J, M, N, L, max_order, pre_pad, out_type):
    return of2d(b2d(cls, J, M, N, L, max_order, pre_pad, out_type), J, M, N, L)


def k2d(cls, J, M, N, L, max_order, pre_pad, out_type):
    S = cls(J, L=L, max_order=max_order, pre_pad=pre_pad)
    c = 2 ** J
    if pre_pad:
        S.build((None, ((M + c) // c + 1) * c, ((N + c) // c + 1) * c))
    else:
        S.build((None, M, N))
    return of2d(S.S, J, M, N, L)


def lowpass3(M, N, O, sigma):
    z, y, x = freqs(M, N, O)
    return np.exp(-0.5 * (z * z + y * y + x * x) * sigma * sigma)


def f3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    res = []
    for l in range(L + 1):
        ref = np.stack([np.stack(solid(M, N, O, sigma_0 * 2 ** j, l), axis=0) for j in range(J + 1)], axis=0)
        res = res + [('l', l, S.filters[l], ref)]
    low = np.stack([lowpass3(M, N, O, sigma_0 * 2 ** j) for j in range(J + 2)], axis=0)
    return [(len(S.filters), L + 1)], res + [('gaussian', 0, S.gaussian_filters, low)]


# ---- the filter functions themselves
def call_sigma(f, xi, Q, r):
    return f(xi, Q, r)


def ref_sigma(xi, Q, r):
    q = 1. / 2. ** (1. / Q)
    return xi * ((1 - q) / (1 + q)) / math.sqrt(2 * math.log(1. / r))


def call_sigma_default(f, xi, Q):
    return f(xi, Q)


def ref_sigma_default(xi, Q):
    return ref_sigma(xi, Q, math.sqrt(0.5))


def call1(f, a):
    return f(a)


def ref_xi_max(Q):
    return max(1. / (1. + 2. ** (3. / Q)), 0.35)


def call_dyadic(f, xi, sigma, alpha):
    return f(xi, sigma, alpha)


def call_dyadic_kw(f, xi, sigma, alpha):
    return f(xi=xi, sigma=sigma, alpha=alpha, r_psi=0.3, sigma0=2)


def ref_dyadic(xi, sigma, alpha):
    edge = min(abs(xi) + alpha * sigma, 0.5)
    return int(math.floor(-math.log2(edge))) - 1


def call_generator(f, J, Q, sigma0, r):
    return [(xi, s) for (xi, s) in f(J, Q, sigma0=sigma0, r_psi=r, alpha=5.)]


def ref_generator(J, Q, sigma0, r):
    xi = ref_xi_max(Q)
    sigma = ref_sigma(xi, Q, r)
    low = sigma0 / 2 ** J
    step = 2. ** (1. / Q)
    out = []
    if sigma <= low:
        xi = sigma
    else:
        out.append((xi, sigma))
        while sigma > low * step:
            xi = xi / step
            sigma = sigma / step
            out.append((xi, sigma))
    for k in range(1, Q):
        out.append((xi - k * xi / Q, low))
    return out


def call_spin(f, g, J, Q, sigma0, r):
    h, kw = f(g, {'sigma0': sigma0, 'r_psi': r, 'alpha': 5.})
    return [(xi, s) for (xi, s) in h(J, Q, **kw)], sorted(kw.items())


def ref_spin(J, Q, sigma0, r):
    a = ref_generator(J, Q, sigma0, r)
    return a + [(-xi, s) for (xi, s) in a], [('alpha', 5.), ('r_psi', r), ('sigma0', sigma0)]


def call_morlet(f, N, xi, sigma):
    return f(N, xi, sigma)


def ref_morlet(N, xi, sigma):
    return morlet(N, xi, sigma)


def call_gauss(f, N, sigma):
    return f(N, sigma)


def ref_gauss(N, sigma):
    return morlet(N, None, sigma)


def decaying(x, w):
    """rows of unlike widths"""
    n = x.shape[1]
    rate = w * np.arange(1, x.shape[0] + 1).reshape(-1, 1)
    return np.fft.fft(x * np.exp(-rate * np.minimum(np.arange(n), n - np.arange(n)) / 4.), axis=1)


def call_support(f, x, crit, w):
    h = decaying(x, w)
    return f(h, criterion_amplitude=crit)


def ref_support(x, crit, w):
    """smallest N such that, for every row, what lies beyond N sums to at most crit; half the length if there is none"""
    h = decaying(x, w)
    t = np.abs(np.fft.ifft(h, axis=1))
    half = h.shape[1] // 2
    for n in range(half):
        if np.max(np.sum(t[:, n:half], axis=1)) <= crit:
            return n + 1
    return half


def call_factory(f, g, N, J, Q, T, alpha, sigma0, r, reduction):
    out = f(N, J, Q, T, (g, {'alpha': alpha, 'sigma0': sigma0, 'r_psi': r}), reduction)
    return [have(out[0])] + [[have(p) for p in psis] for psis in out[1:]], out[0]['N'], len(out)


def ref_factory(f, g, N, J, Q, T, alpha, sigma0, r, reduction):
    out = f(N, J, Q, T, (g, {'alpha': alpha, 'sigma0': sigma0, 'r_psi': r}), reduction)

    def fold(x, k):
        return reduction(x.reshape(2 ** k, -1), axis=0)
    res = [{'xi': 0, 'sigma': sigma0 / T, 'j': int(math.floor(math.log2(T))),
            'levels': [fold(morlet(N, None, sigma0 / T), k) for k in range(len(out[0]['levels']))]}]
    for o, q in enumerate(Q):
        row = []
        for n, (xi, s) in enumerate(ref_generator(J, q, sigma0, r)):
            row.append({'xi': xi, 'sigma': s, 'j': ref_dyadic(xi, s, alpha),
                        'levels': [fold(morlet(N, xi, s), k) for k in range(len(out[1 + o][n]['levels']))]})
        res.append(row)
    return res, N, 1 + len(Q)


def call_gabor(f, M, N, sigma, theta, xi, slant, offset):
    return f(M, N, sigma, theta, xi, slant, offset)


def gabor_at(M, N, sigma, theta, xi, slant, offset):
    c, s = np.cos(theta), np.sin(theta)
    g = 0
    for ex in (-2, -1, 0, 1, 2):
        for ey in (-2, -1, 0, 1, 2):
            u, v = np.mgrid[offset + ex * M:offset + M + ex * M, offset + ey * N:offset + N + ey * N]
            along = u * c + v * s
            across = -u * s + v * c
            g = g + np.exp(-(along * along + slant * slant * (across * across)) / (2 * sigma * sigma) + 1.j * xi * along)
    return g / (2 * 3.1415 * sigma * sigma / slant)


def morlet_at(M, N, sigma, theta, xi, slant, offset):
    w = gabor_at(M, N, sigma, theta, xi, slant, offset)
    m = gabor_at(M, N, sigma, theta, 0, slant, offset)
    return w - m * (np.sum(w) / np.sum(m))


def call_per2(f, x, k):
    return f(x, k)


def ref_per2(x, k):
    return per2(x, k)


def call_g3(f, M, N, O, sigma, fourier):
    return f(M, N, O, sigma, fourier=fourier)


def space(M, N, O):
    def axis(n):
        return np.fft.ifftshift(np.arange(-(n // 2), -(n // 2) + n))
    z = axis(M).reshape(M, 1, 1) + np.zeros((M, N, O))
    y = axis(N).reshape(1, N, 1) + np.zeros((M, N, O))
    x = axis(O).reshape(1, 1, O) + np.zeros((M, N, O))
    return z, y, x


def ref_g3(M, N, O, sigma, fourier):
    if fourier:
        return lowpass3(M, N, O, sigma)
    z, y, x = space(M, N, O)
    return np.exp(-0.5 * (z * z + y * y + x * x) / (sigma * sigma)) / ((2 * np.pi) ** 1.5 * sigma ** 3)


def call_s3(f, M, N, O, sigma, l, fourier):
    return f(M, N, O, sigma, l, fourier=fourier)


def ref_s3(M, N, O, sigma, l, fourier):
    if fourier:
        return np.stack(solid(M, N, O, sigma, l), axis=0)
    z, y, x = space(M, N, O)
    r2 = z * z + y * y + x * x
    g = np.exp(-0.5 * r2 / (sigma * sigma)) / sigma ** 3
    if l == 0:
        return np.stack([g / (2 * np.pi) ** 1.5], axis=0)
    if l % 2 == 0:
        norm = 1. / (2 * np.pi * math.sqrt(l + 0.5) * dfact(l + 1))
    else:
        norm = 1. / (2 ** (0.5 * (l + 3)) * math.sqrt(np.pi * (2 * l + 1)) * math.factorial((l + 1) // 2))
    azimuth = np.arctan2(y, x)
    polar = np.arctan2(z, np.sqrt(x * x + y * y)) + np.pi / 2
    radial = np.sqrt(r2 ** l) / sigma ** l
    return np.stack([sph_harm(m, l, azimuth, polar) * radial * g * norm for m in range(-l, l + 1)], axis=0)


def call_bank3(f, M, N, O, J, L, sigma, fourier):
    return [z for z in f(M, N, O, J, L, sigma, fourier=fourier)]


def ref_bank3(M, N, O, J, L, sigma, fourier):
    return [np.stack([ref_s3(M, N, O, sigma * 2 ** j, l, fourier) for j in range(J + 1)], axis=0) for l in range(L + 1)]


def call_gbank3(f, M, N, O, J, sigma, fourier):
    return f(M, N, O, J, sigma, fourier=fourier)


def ref_gbank3(M, N, O, J, sigma, fourier):
    return np.stack([ref_g3(M, N, O, sigma * 2 ** j, fourier) for j in range(J + 1)], axis=0)


def call_bank2(f, M, N, J, L):
    b = f(M, N, J, L)
    return {'phi': (b['phi']['j'], [x for x in b['phi']['levels']]),
            'psi': [(p['j'], p['theta'], [x for x in p['levels']]) for p in b['psi']]}


def ref_bank2(f, M, N, J, L):
    b = f(M, N, J, L)
    phi = phi_hat(M, N, J)
    return {'phi': (J, [per2(phi, k) for k in range(len(b['phi']['levels']))]),
            'psi': [(p['j'], p['theta'], [per2(p['f'], k) for k in range(len(b['psi'][n]['levels']))])
                    for n, p in enumerate(bank2(M, N, J, L))]}


def ref_dfact(i):
    return dfact(i)


def call_angles(f, g):
    p, a = f(g)
    return p, a


def ref_angles(g):
    z, y, x = g
    return np.arctan2(z, np.sqrt(x * x + y * y)) + np.pi / 2, np.arctan2(y, x)


def call_sum(f, grid, positions, weights, sigma):
    return f(grid, positions, weights, sigma)


def ref_sum(grid, positions, weights, sigma):
    rows = []
    for b in range(positions.shape[0]):
        s = np.zeros(grid.shape[1:])
        for i in range(positions.shape[1]):
            if weights[b, i] == 0:
                break
            d = (grid[0] - positions[b, i, 0]) ** 2 + (grid[1] - positions[b, i, 1]) ** 2 + (grid[2] - positions[b, i, 2]) ** 2
            s = s + weights[b, i] * np.exp(-0.5 * d / (sigma * sigma))
        rows.append(s)
    return np.stack(rows, axis=0) / ((2 * np.pi) ** 1.5 * sigma ** 3)
