"""Construction through the entry classes of the top-level package."""


def en1d(E, cls, frontend, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = E(J, (N,), (Q1, Q2), T=T, stride=stride, max_order=max_order, oversampling=oversampling, out_type=out_type, frontend=frontend)
    return S.__class__ is cls, S.scattering(x), S.J, S.out_type


def de1d(E, cls, frontend, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = E(J, (N,), Q=(Q1, Q2), T=T, stride=stride, max_order=max_order, oversampling=oversampling, out_type=out_type)
    return S.__class__ is cls, S.scattering(x), S.J, S.out_type


def di1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = cls(J, (N,), Q=(Q1, Q2), T=T, stride=stride, max_order=max_order, oversampling=oversampling, out_type=out_type)
    return True, S.scattering(x), S.J, S.out_type


def enjtfs(E, cls, frontend, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = E(J, J_fr, (Q1, Q2), (N,), T=T, stride=stride, Q_fr=Q_fr, F=F, stride_fr=stride_fr, out_type=out_type, format=format, frontend=frontend)
    return S.__class__ is cls, S.scattering(x), S.J, S.out_type


def dejtfs(E, cls, frontend, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = E(J=J, J_fr=J_fr, shape=(N,), Q=(Q1, Q2), T=T, stride=stride, Q_fr=Q_fr, F=F, stride_fr=stride_fr, out_type=out_type, format=format)
    return S.__class__ is cls, S.scattering(x), S.J, S.out_type


def dijtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = cls(J=J, J_fr=J_fr, shape=(N,), Q=(Q1, Q2), T=T, stride=stride, Q_fr=Q_fr, F=F, stride_fr=stride_fr, out_type=out_type, format=format)
    return True, S.scattering(x), S.J, S.out_type


def en2d(E, cls, frontend, x, J, M, N, L, max_order, pre_pad, out_type):
    S = E(J, (M, N), L, max_order=max_order, pre_pad=pre_pad, out_type=out_type, frontend=frontend)
    return S.__class__ is cls, S.scattering(x), S.J, S.out_type


def de2d(E, cls, frontend, x, J, M, N, L, max_order, pre_pad, out_type):
    S = E(J=J, shape=(M, N), L=L, max_order=max_order, pre_pad=pre_pad, out_type=out_type)
    return S.__class__ is cls, S.scattering(x), S.J, S.out_type


def di2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    S = cls(J=J, shape=(M, N), L=L, max_order=max_order, pre_pad=pre_pad, out_type=out_type)
    return True, S.scattering(x), S.J, S.out_type


def en3d(E, cls, frontend, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = E(J, (M, N, O), L, sigma_0, max_order=max_order, rotation_covariant=rotation_covariant, method=method, points=points, integral_powers=integral_powers,
          frontend=frontend)
    return S.__class__ is cls, S.scattering(x), S.J, None


def de3d(E, cls, frontend, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = E(J=J, shape=(M, N, O), L=L, sigma_0=sigma_0, max_order=max_order, rotation_covariant=rotation_covariant, method=method, points=points,
          integral_powers=integral_powers)
    return S.__class__ is cls, S.scattering(x), S.J, None


def di3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = cls(J=J, shape=(M, N, O), L=L, sigma_0=sigma_0, max_order=max_order, rotation_covariant=rotation_covariant, method=method, points=points,
            integral_powers=integral_powers)
    return True, S.scattering(x), S.J, None


# Keras layers take no shape
def enk1d(E, cls, frontend, x, J, N, Q1, Q2, T, max_order, oversampling):
    S = E(J, (Q1, Q2), T=T, max_order=max_order, oversampling=oversampling, frontend=frontend)
    S.build((None, N))
    return S.__class__ is cls, S.call(x), S.J


def dik1d(cls, x, J, N, Q1, Q2, T, max_order, oversampling):
    S = cls(J=J, Q=(Q1, Q2), T=T, max_order=max_order, oversampling=oversampling)
    S.build((None, N))
    return True, S.call(x), S.J


def enk2d(E, cls, frontend, x, J, M, N, L, max_order, pre_pad):
    S = E(J, L=L, max_order=max_order, pre_pad=pre_pad, frontend=frontend)
    S.build((None, x.shape[-2], x.shape[-1]))
    return S.__class__ is cls, S.call(x), S.J


def dik2d(cls, x, J, M, N, L, max_order, pre_pad):
    S = cls(J=J, L=L, max_order=max_order, pre_pad=pre_pad)
    S.build((None, x.shape[-2], x.shape[-1]))
    return True, S.call(x), S.J


# ---- frontends that do not exist
def un1d(E, frontend, N):
    return E(J=2, shape=N, frontend=frontend)


def unjtfs(E, frontend, N):
    return E(J=2, J_fr=2, Q=2, shape=N, frontend=frontend)


def un2d(E, frontend, N):
    return E(J=2, shape=(N, N), L=2, frontend=frontend)


def un3d(E, frontend, N):
    return E(J=1, shape=(N, N, N), L=1, frontend=frontend)


# ---- exports
def same(a, b):
    return a is b


def twice(E, f1, f2, cls1, cls2, N):
    a = E(J=2, shape=N, frontend=f1)
    b = E(J=2, shape=N, frontend=f2)
    c = E(J=2, shape=N, frontend=f1)
    return a.__class__ is cls1, b.__class__ is cls2, c.__class__ is cls1, a is b


def names(a):
    return sorted(a)
