"""Gradient tracking."""
from sa_mark import track, applied
from spec.drive import b1d, bjtfs, b2d, b3d
from spec.params import clean


def g1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)
    track()
    return clean(S.scattering(x))


def gjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    track()
    return clean(S.scattering(x))


def g2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    S = b2d(cls, J, M, N, L, max_order, pre_pad, out_type)
    track()
    return clean(S.scattering(x))


def g3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    track()
    return S.scattering(x)


class Context:
    needs_input_grad = (True,)

    def save_for_backward(self, *tensors):
        self.saved_tensors = tensors

    def mark_non_differentiable(self, *tensors):
        pass

    def set_materialize_grads(self, value):
        pass


def backward(modulus, x, y):
    """the gradient that the modulus propagates, for the cotangent y"""
    r = modulus(x)
    F = applied()
    if F is None:
        return None
    ctx = Context()
    out = F.forward(ctx, x)
    return F.backward(ctx, y.reshape(out.shape))
