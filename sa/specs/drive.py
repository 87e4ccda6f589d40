"""Terms used by the obligations: build an object, call it, look at the result."""
from spec.ref1d import paths as paths1d
from spec.ref2d import paths as paths2d
from spec.refjtfs import paths as pathsjtfs, explode


def b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    return cls(J, (N,), Q=(Q1, Q2), T=T, stride=stride, max_order=max_order, oversampling=oversampling, out_type=out_type)


def r1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    return b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type).scattering(x)


def bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    return cls(J=J, J_fr=J_fr, shape=(N,), Q=(Q1, Q2), T=T, stride=stride, Q_fr=Q_fr, F=F, stride_fr=stride_fr,
               out_type=out_type, format=format)


def rjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    return bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format).scattering(x)


def b2d(cls, J, M, N, L, max_order, pre_pad, out_type):
    return cls(J, (M, N), L=L, max_order=max_order, pre_pad=pre_pad, out_type=out_type)


def r2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    return b2d(cls, J, M, N, L, max_order, pre_pad, out_type).scattering(x)


def b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    return cls(J, (M, N, O), L=L, sigma_0=sigma_0, max_order=max_order, rotation_covariant=rotation_covariant,
               method=method, points=points, integral_powers=integral_powers)


def r3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    return b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers).scattering(x)


def c1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    L = r1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, 'list')
    D = r1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, 'dict')
    Z = None
    if T != 0:
        Z = r1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, 'array')
    return [(p['n'], p['coef']) for p in L], D, Z


def cjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    L = rjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, 'list', format)
    D = rjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, 'dict', format)
    Z = None
    if T != 0 and (F != 0 or format == 'time'):
        Z = rjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, 'array', format)
    return [(p['n'], p['coef']) for p in L], D, Z


def c2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    S = r2d(cls, x, J, M, N, L, max_order, pre_pad, 'list')
    Z = r2d(cls, x, J, M, N, L, max_order, pre_pad, 'array')
    return [(p['n'], p['coef']) for p in S], None, Z


def labels(p, keys):
    return {k: p[k] for k in keys if k in p}


def m1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)
    Sx = S.scattering(x)
    meta = S.meta()
    if out_type == 'list':
        coef = [p['coef'] for p in Sx]
        lab = [{'n': p['n'], 'j': p['j'], 'order': p['order']} for p in Sx]
    else:
        coef = Sx
        lab = None
    psi = [[(p['xi'], p['sigma'], p['j']) for p in S.psi1_f], [(p['xi'], p['sigma'], p['j']) for p in S.psi2_f]]
    ref = paths1d(x, S.pad_left, S.pad_right, J, N, Q1, Q2, T, stride, max_order, oversampling)
    return {'coef': coef, 'labels': lab, 'psi': psi, 'size': S.output_size(), 'detail': S.output_size(detail=True),
            'key': meta['key'], 'order': meta['order'], 'n': meta['n'], 'xi': meta['xi'], 'sigma': meta['sigma'], 'j': meta['j'],
            'ref': [(p['n'], p['coef']) for p in ref]}


def mjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    Sx = S.scattering(x)
    meta = S.meta()
    if out_type == 'list':
        coef = [p['coef'] for p in Sx]
        lab = [labels(p, ('n', 'j', 'order', 'n_fr', 'j_fr', 'spin', 'n1_max', 'n1_stride')) for p in Sx]
    else:
        coef = Sx
        lab = None
    psi = [[(p['xi'], p['sigma'], p['j']) for p in S.psi1_f], [(p['xi'], p['sigma'], p['j']) for p in S.psi2_f]]
    psi_fr = [(p['xi'], p['sigma'], p['j']) for p in S.filters_fr[1]]
    whole = out_type == 'array' and format == 'joint'
    ref = pathsjtfs(x, S.pad_left, S.pad_right, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, whole)
    span = {p['n']: (p['n1_max'], p['step']) for p in ref[1:]}
    if format == 'time':
        ref = explode(ref)
    return {'coef': coef, 'labels': lab, 'psi': psi, 'psi_fr': psi_fr, 'size': S.output_size(), 'span': span,
            'key': meta['key'], 'order': meta['order'], 'n': meta['n'], 'n_fr': meta['n_fr'], 'xi': meta['xi'], 'sigma': meta['sigma'],
            'j': meta['j'], 'xi_fr': meta['xi_fr'], 'sigma_fr': meta['sigma_fr'], 'j_fr': meta['j_fr'], 'spin': meta['spin'],
            'ref': [(p['n'], p['coef']) for p in ref]}


def mlist2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    S = b2d(cls, J, M, N, L, max_order, pre_pad, out_type)
    Sx = S.scattering(x)
    if out_type == 'list':
        coef = [p['coef'] for p in Sx]
        lab = [{'n': p['n'], 'j': p['j'], 'theta': p['theta']} for p in Sx]
    else:
        coef = Sx
        lab = None
    psi = [(p['j'], p['theta']) for p in S.psi]
    ref = paths2d(x, J, M, N, L, max_order, pre_pad)
    return {'coef': coef, 'labels': lab, 'psi': psi, 'ref': [(p['n'], p['coef']) for p in ref]}


# ---- calls through every public entry point
def in1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    return b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type).scattering(x)


def injtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    return bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format).scattering(x)


def in2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    return b2d(cls, J, M, N, L, max_order, pre_pad, out_type).scattering(x)


def in3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    return b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers).scattering(x)


def call1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    return b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)(x)


def calljtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    return bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)(x)


def call2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    return b2d(cls, J, M, N, L, max_order, pre_pad, out_type)(x)


def call3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    return b3d(cls, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers)(x)


def prim1(f, x):
    return f(x)


def prim2(f, x, y):
    return f(x, y)


def prim3(f, x, y, z):
    return f(x, y, z)
