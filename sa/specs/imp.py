"""Everything a user of one frontend touches."""


def use1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = cls(J, (N,), Q=(Q1, Q2), T=T, stride=stride, max_order=max_order, oversampling=oversampling, out_type=out_type)
    S.output_size()
    S.output_size(True)
    S.meta()
    return S.scattering(x), S.Q, S.T, S.average, S.log2_T, S.stride, S.log2_stride, S.oversampling, S.filterbank


def usejtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = cls(J=J, J_fr=J_fr, shape=(N,), Q=(Q1, Q2), T=T, stride=stride, Q_fr=Q_fr, F=F, stride_fr=stride_fr, out_type=out_type, format=format)
    S.output_size()
    S.output_size(True)
    S.meta()
    return S.scattering(x), S.Q, S.T, S.F, S.average, S.average_fr, S.log2_F, S.stride_fr, S.log2_stride_fr, S.filterbank_fr


def use2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    S = cls(J, (M, N), L=L, max_order=max_order, pre_pad=pre_pad, out_type=out_type)
    return S.scattering(x), S.M, S.N


def use3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = cls(J, (M, N, O), L=L, sigma_0=sigma_0, max_order=max_order, rotation_covariant=rotation_covariant, method=method, points=points,
            integral_powers=integral_powers)
    return S.scattering(x)


# the call protocol of each framework
def dunder1d(cls, x, J, N):
    return cls(J=J, shape=N)(x)


def dunderjtfs(cls, x, J, N):
    return cls(J=J, J_fr=J, Q=2, shape=N)(x)


def dunder2d(cls, x, J, N):
    return cls(J=J, shape=(N, N))(x)


def dunder3d(cls, x, J, N):
    return cls(J=J, shape=(N, N, N))(x)


def sk1d(cls, x, J, N):
    S = cls(J=J, shape=N)
    S.get_params()
    return S.fit(x).predict(x), S.fit(x, x).transform(x)


def skjtfs(cls, x, J, N):
    S = cls(J=J, J_fr=J, Q=2, shape=N, out_type='array', format='time')
    S.get_params()
    return S.fit(x).predict(x)


def sk2d(cls, x, J, N):
    S = cls(J=J, shape=(N, N))
    S.get_params()
    return S.fit(x).predict(x)


def sk3d(cls, x, J, N):
    S = cls(J=J, shape=(N, N, N))
    S.get_params()
    return S.fit(x).predict(x)


def keras1d(cls, x, J, N):
    S = cls(J=J)
    S.build((None, N))
    return S.call(x), S.compute_output_shape((None, N)), cls.from_config(S.get_config())


def keras2d(cls, x, J, N):
    S = cls(J=J)
    S.build((None, N, N))
    return S.call(x), S.compute_output_shape((None, N, N)), cls.from_config(S.get_config())


def entry1d(E, f, x, J, N):
    return E(J=J, shape=N, frontend=f).scattering(x)


def entryjtfs(E, f, x, J, N):
    return E(J=J, J_fr=J, Q=2, shape=N, frontend=f).scattering(x)


def entry2d(E, f, x, J, N):
    return E(J=J, shape=(N, N), frontend=f).scattering(x)


def entry3d(E, f, x, J, N):
    return E(J=J, shape=(N, N, N), frontend=f).scattering(x)


def kentry1d(E, f, x, J, N):
    S = E(J=J, frontend=f)
    S.build((None, N))
    return S.call(x)


def kentry2d(E, f, x, J, N):
    S = E(J=J, frontend=f)
    S.build((None, N, N))
    return S.call(x)


def cache(find, get, name, base):
    return find(), find(base), get(name, base, False), get(name, base), get()
