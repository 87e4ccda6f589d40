"""Documented parameters: their positions, their names, their defaults, and what they denote."""
import math
from spec.ref1d import paths as paths1d, container as container1d
from spec.ref2d import paths as paths2d, spec2d
from spec.ref3d import spec3d
from spec.refjtfs import specjtfs
from spec.drive import b1d, bjtfs, b2d, b3d
import numpy as np


def clean(S):
    if isinstance(S, list):
        return [(p['n'], p['coef']) for p in S]
    return S


# ---- positional construction, in the documented order
def pos1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    return clean(cls(J, (N,), (Q1, Q2), T, stride, max_order, oversampling, out_type).scattering(x))


def posjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    return clean(cls(J, J_fr, (Q1, Q2), (N,), T, stride, Q_fr, F, stride_fr, out_type, format).scattering(x))


def pos2d(cls, x, J, M, N, L, max_order, pre_pad, out_type, backend):
    return clean(cls(J, (M, N), L, max_order, pre_pad, backend, out_type).scattering(x))


def pos3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    return cls(J, (M, N, O), L, sigma_0, max_order, rotation_covariant, method, points, integral_powers).scattering(x)


# ---- construction by keyword, all of them
def key1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type, backend):
    return clean(cls(J=J, shape=(N,), Q=(Q1, Q2), T=T, stride=stride, max_order=max_order, oversampling=oversampling, out_type=out_type,
                     backend=backend).scattering(x))


def keyjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format, backend):
    return clean(cls(J=J, J_fr=J_fr, shape=(N,), Q=(Q1, Q2), T=T, stride=stride, Q_fr=Q_fr, F=F, stride_fr=stride_fr,
                     out_type=out_type, format=format, backend=backend).scattering(x))


def key2d(cls, x, J, M, N, L, max_order, pre_pad, out_type, backend):
    return clean(cls(J=J, shape=(M, N), L=L, max_order=max_order, pre_pad=pre_pad, out_type=out_type, backend=backend).scattering(x))


def key3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers, backend):
    return cls(J=J, shape=(M, N, O), L=L, sigma_0=sigma_0, max_order=max_order, rotation_covariant=rotation_covariant,
               method=method, points=points, integral_powers=integral_powers, backend=backend).scattering(x)


# ---- the same with the documented defaults left out
def def1d(cls, x, J, N):
    return clean(cls(J, N).scattering(x))


def def1dQ(cls, x, J, N, Q1):
    return clean(cls(J, N, Q1).scattering(x))


def defjtfs(cls, x, J, J_fr, N, Q1):
    return clean(cls(J=J, J_fr=J_fr, Q=Q1, shape=N).scattering(x))


def def2d(cls, x, J, M, N):
    return clean(cls(J, (M, N)).scattering(x))


def def3d(cls, x, J, M, N, O):
    return cls(J, (M, N, O)).scattering(x)


# ---- documented meaning
def sp1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)
    return container1d(paths1d(x, S.pad_left, S.pad_right, J, N, Q1, Q2, T, stride, max_order, oversampling), out_type)


def sp2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    return spec2d(x, J, M, N, L, max_order, pre_pad, out_type)


def sp3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    return spec3d(x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)


def dsp1d(cls, x, J, N):
    return sp1d(cls, x, J, N, 1, 1, None, None, 2, 0, 'array')


def dsp1dQ(cls, x, J, N, Q1):
    return sp1d(cls, x, J, N, Q1, 1, None, None, 2, 0, 'array')


def dspjtfs(cls, x, J, J_fr, N, Q1):
    return specjtfs(cls, x, J, J_fr, N, Q1, 1, None, None, 1, None, None, 'array', 'time')


def dsp2d(cls, x, J, M, N):
    return spec2d(x, J, M, N, 8, 2, False, 'array')


def dsp3d(cls, x, J, M, N, O):
    return spec3d(x, J, M, N, O, 3, 1, 2, True, 'integral', None, (0.5, 1., 2.))


# ---- documented attributes
def att1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)
    return {'J': S.J, 'shape': S.shape, 'Q': S.Q, 'T': S.T, 'max_order': S.max_order, 'stride': S.stride, 'average': S.average, 'out_type': S.out_type,
            'oversampling': S.oversampling}


def satt1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    t = 2 ** J if (T is None or T == 'global' or T == 0) else T
    s = stride
    if s is None:
        s = 2 ** int(math.floor(math.log2(t)))
        if oversampling:
            s = s // 2 ** oversampling
    if T == 'global':
        avg = 'global'
    elif T is None:
        avg = 'local'
    elif T == 0:
        avg = False
    else:
        avg = 'local'
    return {'J': J, 'shape': (N,), 'Q': (Q1, Q2), 'T': t, 'max_order': max_order, 'stride': s, 'average': avg, 'out_type': out_type,
            'oversampling': oversampling}


def attjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    return {'J': S.J, 'J_fr': S.J_fr, 'shape': S.shape, 'Q': S.Q, 'T': S.T, 'F': S.F, 'stride': S.stride, 'stride_fr': S.stride_fr, 'format': S.format,
            'average': S.average, 'average_fr': S.average_fr, 'out_type': S.out_type}


def satt(T, J, stride):
    t = 2 ** J if (T is None or T == 'global' or T == 0) else T
    s = 2 ** int(math.floor(math.log2(t))) if stride is None else stride
    if T == 'global':
        avg = 'global'
    elif T is None:
        avg = 'local'
    elif T == 0:
        avg = False
    else:
        avg = 'local'
    return t, s, avg


def sattjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    t, s, a = satt(T, J, stride)
    f, sf, af = satt(F, J_fr, stride_fr)
    return {'J': J, 'J_fr': J_fr, 'shape': (N,), 'Q': (Q1, Q2), 'T': t, 'F': f, 'stride': s, 'stride_fr': sf, 'format': format,
            'average': a, 'average_fr': af, 'out_type': out_type}


def att2d(cls, J, M, N, L, max_order, pre_pad, out_type):
    S = b2d(cls, J, M, N, L, max_order, pre_pad, out_type)
    return {'J': S.J, 'shape': S.shape, 'L': S.L, 'max_order': S.max_order, 'pre_pad': S.pre_pad, 'out_type': S.out_type}


def satt2d(cls, J, M, N, L, max_order, pre_pad, out_type):
    return {'J': J, 'shape': (M, N), 'L': L, 'max_order': max_order, 'pre_pad': pre_pad, 'out_type': out_type}


def att3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)
    return {'J': S.J, 'shape': S.shape, 'L': S.L, 'max_order': S.max_order, 'sigma_0': S.sigma_0, 'rotation_covariant': S.rotation_covariant,
            'method': S.method, 'points': S.points, 'integral_powers': S.integral_powers}


def satt3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    return {'J': J, 'shape': (M, N, O), 'L': L, 'max_order': max_order, 'sigma_0': sigma_0, 'rotation_covariant': rotation_covariant,
            'method': method, 'points': points, 'integral_powers': integral_powers}


# ---- Keras layers
def keras1d(cls, x, J, N, Q1, Q2, T, max_order, oversampling):
    S = cls(J=J, Q=(Q1, Q2), T=T, max_order=max_order, oversampling=oversampling)
    S.build((None, N))
    return S.call(x)


def keraspos1d(cls, x, J, N, Q1, Q2, T, max_order, oversampling):
    S = cls(J, (Q1, Q2), T, max_order, oversampling)
    S.build((None, N))
    return S.call(x)


def kerasdef1d(cls, x, J, N):
    S = cls(J)
    S.build((None, N))
    return S.call(x)


def skeras1d(tfcls, x, J, N, Q1, Q2, T, max_order, oversampling):
    return sp1d(tfcls, x, J, N, Q1, Q2, T, None, max_order, oversampling, 'array')


def keras2d(cls, x, J, M, N, L, max_order, pre_pad):
    S = cls(J=J, L=L, max_order=max_order, pre_pad=pre_pad)
    S.build((None, x.shape[-2], x.shape[-1]))
    return S.call(x)


def keraspos2d(cls, x, J, M, N, L, max_order, pre_pad):
    S = cls(J, L, max_order, pre_pad)
    S.build((None, x.shape[-2], x.shape[-1]))
    return S.call(x)


def kerasdef2d(cls, x, J, M, N):
    S = cls(J)
    S.build((None, M, N))
    return S.call(x)


def skeras2d(tfcls, x, J, M, N, L, max_order, pre_pad):
    return spec2d(x, J, M, N, L, max_order, pre_pad, 'array')
