"""Every public member of an object, used once."""
from spec.drive import b1d, bjtfs, b2d, b3d


def p1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)
    r = [S.oversampling, S.average, S.filterbank, S.log2_T, S.Q, S.T, S.J, S.shape, S.max_order, S.out_type]
    r = r + [S.log2_stride, S.stride]
    r = r + [S.meta(), S.output_size(), S.output_size(detail=True), S.output_size(True)]
    return r + [S.scattering(x), S(x)]


def pjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    r = [S.oversampling, S.average, S.filterbank, S.log2_T, S.Q, S.T, S.J, S.shape, S.max_order, S.out_type]
    r = r + [S.average_fr, S.F, S.filterbank_fr, S.log2_F, S.log2_stride_fr, S.stride_fr, S.J_fr, S.Q_fr, S.format]
    r = r + [S.log2_stride, S.stride]
    r = r + [S.meta()]
    return r + [S.scattering(x), S(x)]


def p2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    S = b2d(cls, J, M, N, L, max_order, pre_pad, out_type)
    r = [S.M, S.N, S.J, S.L, S.shape, S.max_order, S.pre_pad, S.out_type, S.phi, S.psi]
    return r + [S.scattering(x), S(x)]


def p3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    r = [S.J, S.L, S.shape, S.sigma_0, S.max_order, S.rotation_covariant, S.method, S.points, S.integral_powers, S.filters, S.gaussian_filters]
    return r + [S.scattering(x), S(x)]


def k1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = cls(J, Q=(Q1, Q2), T=T, max_order=max_order, oversampling=oversampling)
    r = [S.get_config()]
    S.build((None, N))
    return r + [S.compute_output_shape((None, N)), S.get_config(), S.call(x)]


def k2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    S = cls(J, L=L, max_order=max_order, pre_pad=pre_pad)
    r = [S.get_config()]
    c = 2 ** J
    if pre_pad:
        size = (((M + c) // c + 1) * c, ((N + c) // c + 1) * c)
    else:
        size = (M, N)
    S.build((None, size[0], size[1]))
    return r + [S.compute_output_shape((None, size[0], size[1])), S.get_config(), S.call(x)]
