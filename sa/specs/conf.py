"""Construction with arbitrary configurations, then first use."""


def cf1d(cls, x, J, shape, Q, T, stride, max_order, oversampling, out_type):
    return cls(J=J, shape=shape, Q=Q, T=T, stride=stride, max_order=max_order, oversampling=oversampling, out_type=out_type).scattering(x)


def cfjtfs(cls, x, J, J_fr, shape, Q, T, stride, Q_fr, F, stride_fr, out_type, format):
    return cls(J=J, J_fr=J_fr, shape=shape, Q=Q, T=T, stride=stride, Q_fr=Q_fr, F=F, stride_fr=stride_fr, out_type=out_type, format=format).scattering(x)


def cf2d(cls, x, J, shape, L, max_order, pre_pad, out_type):
    return cls(J=J, shape=shape, L=L, max_order=max_order, pre_pad=pre_pad, out_type=out_type).scattering(x)


def cf3d(cls, x, J, shape, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    return cls(J=J, shape=shape, L=L, sigma_0=sigma_0, max_order=max_order, rotation_covariant=rotation_covariant, method=method, points=points,
               integral_powers=integral_powers).scattering(x)


def cfk1d(cls, x, J, shape, Q, T, stride, max_order, oversampling, out_type):
    S = cls(J=J, Q=Q, T=T, max_order=max_order, oversampling=oversampling)
    S.build((None,) + shape)
    return S.call(x)


def cfk2d(cls, x, J, shape, L, max_order, pre_pad, out_type):
    S = cls(J=J, L=L, max_order=max_order, pre_pad=pre_pad)
    S.build((None, x.shape[-2], x.shape[-1]))
    return S.call(x)


def be1d(cls, x, J, N, backend):
    return cls(J=J, shape=N, backend=backend).scattering(x)


def bejtfs(cls, x, J, N, backend):
    return cls(J=J, J_fr=2, Q=2, shape=N, backend=backend).scattering(x)


def be2d(cls, x, J, N, backend):
    return cls(J=J, shape=(N, N), L=2, backend=backend).scattering(x)


def be3d(cls, x, J, N, backend):
    return cls(J=J, shape=(N, N, N), L=1, backend=backend).scattering(x)
