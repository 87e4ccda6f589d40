"""Filters held by a transform, for the value of each at frequency zero and its norm."""
import numpy as np
from spec.drive import b1d, bjtfs, b2d, b3d


def rows(kind, filters):
    return [(kind, n, [f for f in p['levels']]) for n, p in enumerate(filters)]


def of1d(S):
    return rows('phi', [S.phi_f]) + rows('psi1', S.psi1_f) + rows('psi2', S.psi2_f)


def f1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    return of1d(b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type))


def k1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = cls(J, Q=(Q1, Q2), T=T, max_order=max_order, oversampling=oversampling)
    S.build((None, N))
    return of1d(S.S)


def fjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    phi, psis = S.filters_fr
    # the first of the frequential wavelets is a low-pass
    return of1d(S) + rows('phi_fr', [phi, psis[0]]) + rows('psi_fr', psis[1:])


def f2d(cls, J, M, N, L, max_order, pre_pad, out_type):
    S = b2d(cls, J, M, N, L, max_order, pre_pad, out_type)
    return rows('phi2', [S.phi]) + rows('psi', S.psi)


def k2d(cls, J, M, N, L, max_order, pre_pad, out_type):
    S = cls(J, L=L, max_order=max_order, pre_pad=pre_pad)
    c = 2 ** J
    if pre_pad:
        S.build((None, ((M + c) // c + 1) * c, ((N + c) // c + 1) * c))
    else:
        S.build((None, M, N))
    return rows('phi2', [S.S.phi]) + rows('psi', S.S.psi)


def f3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    return [('gaussian', 0, [S.gaussian_filters])] + [('solid', l, [S.filters[l]]) for l in range(L + 1)]


def outputs(y):
    """[(number of wavelets, coefficient)]"""
    return [(len(p['j']), p['coef']) for p in y]


def c1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    return outputs(b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, 'list').scattering(x))


def cjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    return [(p['order'], p['coef']) for p in bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, 'list', 'time').scattering(x)]


def c2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    return outputs(b2d(cls, J, M, N, L, max_order, pre_pad, 'list').scattering(x))


def ck1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = cls(J, Q=(Q1, Q2), T=T, max_order=max_order, oversampling=oversampling)
    S.build((None, N))
    y = S.call(x)
    return [(len(k), y[..., i, :]) for i, k in enumerate(S.S.meta()['key'])]


def ck2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    S = cls(J, L=L, max_order=max_order, pre_pad=pre_pad)
    c = 2 ** J
    if pre_pad:
        S.build((None, ((M + c) // c + 1) * c, ((N + c) // c + 1) * c))
    else:
        S.build((None, M, N))
    return [(0, S.call(x)[..., :1, :, :]), (1, S.call(x)[..., 1:, :, :])]


def c3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, 'integral', points, (1., 2.))
    y = S.scattering(x)
    # batch, path, degree, power: degrees above zero respond to nothing in a constant
    return [(1, y[..., 1:, :])] if L > 0 else []


# ---- the functions themselves
def at_zero(f, N, xi, sigma):
    y = f(N, xi, sigma)
    return [y[0], np.sum(np.abs(np.fft.ifft(y)))]


def unit(N, xi, sigma):
    return [0., 1.]


def at_zero_low(f, N, sigma):
    y = f(N, sigma)
    return [y[0], np.sum(np.abs(np.fft.ifft(y)))]


def unit_low(N, sigma):
    return [1., 1.]


def mean2(f, M, N, sigma, theta, xi, slant, offset):
    y = f(M, N, sigma, theta, xi, slant, offset)
    return np.sum(y) / np.max(np.abs(y))


def nothing(M, N, sigma, theta, xi, slant, offset):
    return 0. + 0j
