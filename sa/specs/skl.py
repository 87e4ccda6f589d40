"""The estimator contract."""


def b1d(cls, J, shape, Q, T, stride, max_order, oversampling):
    return cls(J, shape, Q=Q, T=T, stride=stride, max_order=max_order, oversampling=oversampling, out_type='array')


def bjtfs(cls, J, J_fr, shape, Q, T, stride, Q_fr, F, stride_fr, format):
    return cls(J=J, J_fr=J_fr, shape=shape, Q=Q, T=T, stride=stride, Q_fr=Q_fr, F=F, stride_fr=stride_fr, out_type='array', format=format)


def b2d(cls, J, shape, L, max_order, pre_pad):
    return cls(J, shape, L=L, max_order=max_order, pre_pad=pre_pad)


def b3d(cls, J, shape, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    return cls(J, shape, L, sigma_0=sigma_0, max_order=max_order, rotation_covariant=rotation_covariant, method=method, points=points, integral_powers=integral_powers)


def params1d(cls, J, shape, Q, T, stride, max_order, oversampling):
    p = b1d(cls, J, shape, Q, T, stride, max_order, oversampling).get_params()
    p.pop('backend', None)
    return p


def paramsjtfs(cls, J, J_fr, shape, Q, T, stride, Q_fr, F, stride_fr, format):
    p = bjtfs(cls, J, J_fr, shape, Q, T, stride, Q_fr, F, stride_fr, format).get_params(deep=False)
    p.pop('backend', None)
    return p


def params2d(cls, J, shape, L, max_order, pre_pad):
    p = b2d(cls, J, shape, L, max_order, pre_pad).get_params(False)
    p.pop('backend', None)
    return p


def params3d(cls, J, shape, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    p = b3d(cls, J, shape, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers).get_params()
    p.pop('backend', None)
    return p


# a clone of the estimator, itself cloned, gives the transform of the original; also after use
def clone1d(cls, x, J, shape, Q, T, stride, max_order, oversampling):
    S = b1d(cls, J, shape, Q, T, stride, max_order, oversampling)
    C = cls(**S.get_params())
    C.scattering(x)
    D = cls(**C.get_params())
    return C.scattering(x), D.scattering(x), D.output_size()


def orig1d(cls, x, J, shape, Q, T, stride, max_order, oversampling):
    S = b1d(cls, J, shape, Q, T, stride, max_order, oversampling)
    return S.scattering(x), S.scattering(x), S.output_size()


def clonejtfs(cls, x, J, J_fr, shape, Q, T, stride, Q_fr, F, stride_fr, format):
    S = bjtfs(cls, J, J_fr, shape, Q, T, stride, Q_fr, F, stride_fr, format)
    S.scattering(x)
    C = cls(**S.get_params())
    return C.scattering(x)


def origjtfs(cls, x, J, J_fr, shape, Q, T, stride, Q_fr, F, stride_fr, format):
    return bjtfs(cls, J, J_fr, shape, Q, T, stride, Q_fr, F, stride_fr, format).scattering(x)


def clone2d(cls, x, J, shape, L, max_order, pre_pad):
    S = b2d(cls, J, shape, L, max_order, pre_pad)
    C = cls(**S.get_params())
    C.scattering(x)
    D = cls(**C.get_params())
    return C.scattering(x), D.scattering(x)


def orig2d(cls, x, J, shape, L, max_order, pre_pad):
    S = b2d(cls, J, shape, L, max_order, pre_pad)
    return S.scattering(x), S.scattering(x)


def clone3d(cls, x, J, shape, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = b3d(cls, J, shape, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    C = cls(**S.get_params())
    C.scattering(x)
    D = cls(**C.get_params())
    return C.scattering(x), D.scattering(x)


def orig3d(cls, x, J, shape, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = b3d(cls, J, shape, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    return S.scattering(x), S.scattering(x)


# fit, predict, transform on the matrix of flattened samples
def est1d(cls, xf, x, J, shape, Q, T, stride, max_order, oversampling):
    S = b1d(cls, J, shape, Q, T, stride, max_order, oversampling)
    return (S.fit() is S, S.fit(xf) is S, S.fit(xf, xf) is S, S.fit(x=xf, y=None) is S), S.predict(xf), S.fit(xf).transform(xf), S.fit_transform(xf), S.predict(xf[0])


def rows1d(cls, xf, x, J, shape, Q, T, stride, max_order, oversampling):
    S = b1d(cls, J, shape, Q, T, stride, max_order, oversampling)
    y = S.scattering(x)
    y = y.reshape((y.shape[0], -1))
    return (True, True, True, True), y, y, y, y[0]


def estjtfs(cls, xf, x, J, J_fr, shape, Q, T, stride, Q_fr, F, stride_fr, format):
    S = bjtfs(cls, J, J_fr, shape, Q, T, stride, Q_fr, F, stride_fr, format)
    return (S.fit() is S, S.fit(xf) is S, S.fit(xf, xf) is S), S.predict(xf), S.fit(xf).transform(xf), S.predict(xf[0])


def rowsjtfs(cls, xf, x, J, J_fr, shape, Q, T, stride, Q_fr, F, stride_fr, format):
    S = bjtfs(cls, J, J_fr, shape, Q, T, stride, Q_fr, F, stride_fr, format)
    y = S.scattering(x)
    y = y.reshape((y.shape[0], -1))
    return (True, True, True), y, y, y[0]


def est2d(cls, xf, x, J, shape, L, max_order, pre_pad):
    S = b2d(cls, J, shape, L, max_order, pre_pad)
    return (S.fit() is S, S.fit(xf) is S, S.fit(xf, xf) is S), S.predict(xf), S.fit(xf).transform(xf), S.fit_transform(xf, xf), S.predict(xf[0])


def rows2d(cls, xf, x, J, shape, L, max_order, pre_pad):
    S = b2d(cls, J, shape, L, max_order, pre_pad)
    y = S.scattering(x)
    y = y.reshape((y.shape[0], -1))
    return (True, True, True), y, y, y, y[0]


def est3d(cls, xf, x, J, shape, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = b3d(cls, J, shape, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    return (S.fit() is S, S.fit(xf) is S, S.fit(xf, xf) is S), S.predict(xf), S.fit(xf).transform(xf), S.fit_transform(xf), S.predict(xf[0])


def rows3d(cls, xf, x, J, shape, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = b3d(cls, J, shape, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    y = S.scattering(x)
    y = y.reshape((y.shape[0], -1))
    return (True, True, True), y, y, y, y[0]
