"""Histories: what a call returns after other calls, other instances and metadata queries."""
from sa_mark import mark
from spec.drive import b1d, bjtfs, b2d, b3d
from spec.params import clean, att1d, attjtfs, att2d, att3d


def pub1d(S):
    return (S.J, S.shape, S.Q, S.T, S.max_order, S.stride, S.average, S.out_type, S.oversampling, S.pad_left, S.pad_right)


def pub2d(S):
    return (S.J, S.shape, S.L, S.max_order, S.pre_pad, S.out_type)


def pub3d(S):
    return (S.J, S.shape, S.L, S.max_order, S.sigma_0, S.rotation_covariant, S.method, S.points, S.integral_powers)


def pubjtfs(S):
    return (S.J, S.J_fr, S.shape, S.Q, S.T, S.F, S.stride, S.stride_fr, S.format, S.average, S.average_fr, S.out_type)


def flt1d(S):
    return (S.phi_f['levels'], [(p['xi'], p['sigma'], p['j'], p['levels']) for p in S.psi1_f], [(p['xi'], p['sigma'], p['j'], p['levels']) for p in S.psi2_f])


def fltjtfs(S):
    return flt1d(S), S.filters_fr[0]['levels'], [(p['xi'], p['sigma'], p['j'], p['levels']) for p in S.filters_fr[1]]


def flt2d(S):
    return S.phi['levels'], [(p['j'], p['theta'], p['levels']) for p in S.psi]


def flt3d(S):
    return S.filters


def h1d(cls, x, y, z, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type, J_, N_, Q1_, Q2_, T_, max_order_):
    O = cls(J_, (N_,), Q=(Q1_, Q2_), T=T_, max_order=max_order_, out_type='list')
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)
    cls(J_, (N_,), Q=(Q1_, Q2_), T=T_, max_order=max_order_, out_type='list')
    mark('call')
    O.scattering(z)
    S.scattering(y)
    S.meta()
    S.output_size()
    S.output_size(detail=True)
    O.meta()
    return clean(S.scattering(x)), x, y, pub1d(S), flt1d(S), S.meta(), clean(S.scattering(x))


def n1d(cls, x, y, z, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)
    r = clean(S.scattering(x))
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)
    return r, x, y, pub1d(S), flt1d(S), S.meta(), r


def hjtfs(cls, x, y, z, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format, J_, J_fr_, Q1_, T_, Q_fr_, F_, format_):
    O = cls(J=J_, J_fr=J_fr_, shape=(N,), Q=(Q1_, Q2), T=T_, Q_fr=Q_fr_, F=F_, out_type='list', format=format_)
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    cls(J=J_, J_fr=J_fr_, shape=(N,), Q=(Q1_, Q2), T=T_, Q_fr=Q_fr_, F=F_, out_type='list', format=format_)
    mark('call')
    O.scattering(z)
    S.scattering(y)
    S.meta()
    S.output_size()
    return clean(S.scattering(x)), x, y, pubjtfs(S), fltjtfs(S), S.meta(), None


def njtfs(cls, x, y, z, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    r = clean(S.scattering(x))
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    return r, x, y, pubjtfs(S), fltjtfs(S), S.meta(), None


def h2d(cls, x, y, z, J, M, N, L, max_order, pre_pad, out_type, J_, L_, max_order_):
    O = cls(J_, (M, N), L=L_, max_order=max_order_, out_type='list')
    S = b2d(cls, J, M, N, L, max_order, pre_pad, out_type)
    cls(J_, (M, N), L=L_, max_order=max_order_, out_type='list')
    mark('call')
    O.scattering(z)
    S.scattering(y)
    return clean(S.scattering(x)), x, y, pub2d(S), flt2d(S), None, clean(S.scattering(x))


def n2d(cls, x, y, z, J, M, N, L, max_order, pre_pad, out_type):
    S = b2d(cls, J, M, N, L, max_order, pre_pad, out_type)
    r = clean(S.scattering(x))
    S = b2d(cls, J, M, N, L, max_order, pre_pad, out_type)
    return r, x, y, pub2d(S), flt2d(S), None, r


def h3d(cls, x, y, z, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers, J_, L_, sigma_, rot_, max_order_):
    P = b3d(cls, J_, M, N, O, L_, sigma_, max_order_, rot_, 'integral', None, (0.5, 1.0))
    S = b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    b3d(cls, J_, M, N, O, L_, sigma_, max_order_, rot_, 'integral', None, (0.5, 1.0))
    mark('call')
    P.scattering(z)
    S.scattering(y)
    return S.scattering(x), x, y, pub3d(S), flt3d(S), integral_powers, S.scattering(x)


def n3d(cls, x, y, z, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    r = S.scattering(x)
    S = b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    return r, x, y, pub3d(S), flt3d(S), integral_powers, r


# ---- Keras layers
def hk1d(cls, x, y, J, N, Q1, Q2, T, max_order, oversampling, J_):
    S = cls(J=J, Q=(Q1, Q2), T=T, max_order=max_order, oversampling=oversampling)
    O = cls(J=J_, Q=(Q1, Q2), T=T, max_order=max_order, oversampling=oversampling)
    S.build((None, N))
    O.build((None, N))
    mark('call')
    O.call(y)
    S.call(y)
    S.get_config()
    S.compute_output_shape((None, N))
    return S.call(x), x, y, S.call(x)


def nk1d(cls, x, y, J, N, Q1, Q2, T, max_order, oversampling):
    S = cls(J=J, Q=(Q1, Q2), T=T, max_order=max_order, oversampling=oversampling)
    S.build((None, N))
    r = S.call(x)
    return r, x, y, r


def hk2d(cls, x, y, J, M, N, L, max_order, pre_pad, L_):
    S = cls(J=J, L=L, max_order=max_order, pre_pad=pre_pad)
    O = cls(J=J, L=L_, max_order=max_order, pre_pad=pre_pad)
    S.build((None, x.shape[-2], x.shape[-1]))
    O.build((None, x.shape[-2], x.shape[-1]))
    mark('call')
    O.call(y)
    S.call(y)
    S.get_config()
    S.compute_output_shape((None, x.shape[-2], x.shape[-1]))
    return S.call(x), x, y, S.call(x)


def nk2d(cls, x, y, J, M, N, L, max_order, pre_pad):
    S = cls(J=J, L=L, max_order=max_order, pre_pad=pre_pad)
    S.build((None, x.shape[-2], x.shape[-1]))
    r = S.call(x)
    return r, x, y, r


# ---- scikit-learn
def hs1d(cls, x, y, J, N, Q1, Q2, T, max_order, J_):
    O = cls(J_, (N,), Q=(Q1, Q2), T=T, max_order=max_order)
    S = cls(J, (N,), Q=(Q1, Q2), T=T, max_order=max_order)
    mark('call')
    O.fit(y)
    O.transform(y)
    S.fit(y)
    S.predict(y)
    S.get_params()
    return S.transform(x), x, y, S.predict(x)


def ns1d(cls, x, y, J, N, Q1, Q2, T, max_order):
    S = cls(J, (N,), Q=(Q1, Q2), T=T, max_order=max_order)
    r = S.scattering(x)
    r = r.reshape(x.shape[0], -1)
    return r, x, y, r
