"""Concurrent calls and replicas: the same call while another party runs it too."""
from sa_mark import interfere, replica
from spec.drive import b1d, bjtfs, b2d, b3d
from spec.params import clean


def i1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)
    interfere('x', 'y')
    return clean(S.scattering(x)), S.output_size(), S.meta()


def p1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)
    return clean(S.scattering(x)), S.output_size(), S.meta()


def ijtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    interfere('x', 'y')
    return clean(S.scattering(x)), S.output_size(), S.meta()


def pjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    return clean(S.scattering(x)), S.output_size(), S.meta()


def i2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    S = b2d(cls, J, M, N, L, max_order, pre_pad, out_type)
    interfere('x', 'y')
    return clean(S.scattering(x))


def p2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    S = b2d(cls, J, M, N, L, max_order, pre_pad, out_type)
    return clean(S.scattering(x))


def i3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    interfere('x', 'y')
    return S.scattering(x)


def p3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    return S.scattering(x)


# ---- replicas: a replica shares everything but its buffers with the module
def r1d(cls, x, c, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    R = replica(b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type), c)
    interfere('x', 'y', 'c', 'c2', exclude=R)
    return clean(R.scattering(x))


def q1d(cls, x, c, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    R = replica(b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type), c)
    return clean(R.scattering(x))


def rjtfs(cls, x, c, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    R = replica(bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format), c)
    interfere('x', 'y', 'c', 'c2', exclude=R)
    return clean(R.scattering(x))


def qjtfs(cls, x, c, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    R = replica(bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format), c)
    return clean(R.scattering(x))


def r2d(cls, x, c, J, M, N, L, max_order, pre_pad, out_type):
    R = replica(b2d(cls, J, M, N, L, max_order, pre_pad, out_type), c)
    interfere('x', 'y', 'c', 'c2', exclude=R)
    return clean(R.scattering(x))


def q2d(cls, x, c, J, M, N, L, max_order, pre_pad, out_type):
    R = replica(b2d(cls, J, M, N, L, max_order, pre_pad, out_type), c)
    return clean(R.scattering(x))


def r3d(cls, x, c, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    R = replica(b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers), c)
    interfere('x', 'y', 'c', 'c2', exclude=R)
    return R.scattering(x)


def q3d(cls, x, c, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    R = replica(b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers), c)
    return R.scattering(x)
