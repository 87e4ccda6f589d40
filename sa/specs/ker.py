"""Keras layers: configuration round trip and declared shape."""


def orig1d(cls, x, ishape, N, J, Q, T, max_order, oversampling):
    S = cls(J, Q, T, max_order, oversampling)
    S.build(ishape)
    y = S.call(x)
    return y, y, y, y


def trip1d(cls, x, ishape, N, J, Q, T, max_order, oversampling):
    S = cls(J=J, Q=Q, T=T, max_order=max_order, oversampling=oversampling)
    A = cls(**S.get_config())
    A.build(ishape)
    B = cls.from_config(A.get_config())
    B.build(ishape)
    b = B.call(x)
    C = cls(**B.get_config())
    C.build(ishape)
    S.build(ishape)
    D = cls.from_config(S.get_config())
    D.build(ishape)
    return A.call(x), b, C.call(x), D.call(x)


def orig2d(cls, x, ishape, J, L, max_order, pre_pad):
    S = cls(J, L, max_order, pre_pad)
    S.build(ishape)
    y = S.call(x)
    return y, y, y, y


def trip2d(cls, x, ishape, J, L, max_order, pre_pad):
    S = cls(J=J, L=L, max_order=max_order, pre_pad=pre_pad)
    A = cls(**S.get_config())
    A.build(ishape)
    B = cls.from_config(A.get_config())
    B.build(ishape)
    b = B.call(x)
    C = cls(**B.get_config())
    C.build(ishape)
    S.build(ishape)
    D = cls.from_config(S.get_config())
    D.build(ishape)
    return A.call(x), b, C.call(x), D.call(x)


def shape1d(cls, x, ishape, N, J, Q, T, max_order, oversampling):
    S = cls(J, Q, T, max_order, oversampling)
    S.build(ishape)
    a = S.compute_output_shape(ishape)
    y = S.call(x)
    return y, a, S.compute_output_shape(ishape), S.compute_output_shape(x.shape)


def shape2d(cls, x, ishape, J, L, max_order, pre_pad):
    S = cls(J, L, max_order, pre_pad)
    S.build(ishape)
    a = S.compute_output_shape(ishape)
    y = S.call(x)
    return y, a, S.compute_output_shape(ishape), S.compute_output_shape(x.shape)


def config1d(cls, J, Q, T, max_order, oversampling):
    S = cls(J, Q, T, max_order, oversampling)
    return sorted(S.get_config().items())


def config2d(cls, J, L, max_order, pre_pad):
    S = cls(J, L, max_order, pre_pad)
    return sorted(S.get_config().items())
