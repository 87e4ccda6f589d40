"""Padding by reflection, its removal, and the samples that remain."""
import math
import numpy as np
from spec.drive import b1d, bjtfs, b2d
from spec.ref1d import morlet, parse


# ---- primitives
def reflect1(b, x, left, right):
    return b.pad(x, pad_left=left, pad_right=right)


def reflected1(b, x, left, right):
    N = x.shape[-1]
    if left >= N or right >= N:
        raise ValueError('more samples than the signal has')
    return np.pad(x, [(0, 0)] * (len(x.shape) - 1) + [(left, right)], mode='reflect')


def first(left, step):
    return -(-left // step)


def back1(b, x, left, right, step):
    N = x.shape[-1]
    u = b.pad(x, pad_left=left, pad_right=right)
    return b.unpad(u[..., ::step], first(left, step), first(left + N, step))


def back1t(b, x, left, right, step):
    N = x.shape[-1]
    u = b.pad(x, pad_left=left, pad_right=right)
    return b.unpad(u[..., ::step, :], first(left, step), first(left + N, step))


def kept1(b, x, left, right, step):
    return x[..., first(left, step) * step - left::step]


def sizes2(M, N, J):
    c = 2 ** J
    Mp = (M // c + 2) * c
    Np = (N // c + 2) * c
    return (Mp - M) // 2, (Mp - M + 1) // 2, (Np - N) // 2, (Np - N + 1) // 2


def reflect2(b, x, J):
    M, N = x.shape[-2], x.shape[-1]
    return b.Pad([d for d in sizes2(M, N, J)], [M, N])(x)


def reflected2(b, x, J):
    t, d, l, r = sizes2(x.shape[-2], x.shape[-1], J)
    return np.pad(x, [(0, 0)] * (len(x.shape) - 2) + [(t, d), (l, r)], mode='reflect')


def back2(b, x, J):
    c = 2 ** J
    return b.unpad(reflect2(b, x, J)[..., ::c, ::c])


def back2t(b, x, J):
    c = 2 ** J
    return b.unpad(reflect2(b, x, J)[..., ::c, ::c, :])


def kept2(b, x, J):
    c = 2 ** J
    M, N = x.shape[-2], x.shape[-1]
    t, d, l, r = sizes2(M, N, J)
    return x[..., c - t::c, c - l::c][..., :M // c, :N // c]


# ---- the integers
def call_padding1(f, N, n):
    return f(N, n)


def ref_padding1(N, n):
    left = (N - n) // 2
    right = N - n - left
    if N < n or right >= n:
        raise ValueError('padding')
    return left, right


def call_padding2(f, M, N, J):
    return f(M, N, J)


def ref_padding2(M, N, J):
    c = 2 ** J
    return (M // c + 2) * c, (N // c + 2) * c


def call_border(f, log2_T, J, i0, i1):
    s, e = f(log2_T, J, i0, i1)
    return sorted(s.items()), sorted(e.items())


def ref_border(log2_T, J, i0, i1):
    return ([(j, first(i0, 2 ** j)) for j in range(max(log2_T, J) + 1)],
            [(j, first(i1, 2 ** j)) for j in range(max(log2_T, J) + 1)])


def length(N, T, J):
    """power of two that holds the signal and three supports of the low-pass filter on each side, within reach of a reflection"""
    Tv = parse(T, J, N)[0]
    h = np.abs(np.fft.ifft(morlet(N, None, 0.1 / Tv)))
    half = N // 2
    support = half
    for n in range(half):
        if np.sum(h[n:half]) <= 1e-3:
            support = n + 1
            break
    return min(2 ** int(math.ceil(math.log2(N + 6 * support))), 2 ** int(math.floor(math.log2(3 * N - 2))))


def of(S, N, T, J):
    P = length(N, T, J)
    return (S.pad_left, S.pad_right), ((P - N) // 2, P - N - (P - N) // 2)


def lay1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    return of(b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type), N, T, J)


def layjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    return of(bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format), N, T, J)


# ---- whole transforms
def zero1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    """zeroth order without averaging"""
    S = b1d(cls, J, N, Q1, Q2, 0, None, max_order, 0, out_type).scattering(x)
    if out_type == 'dict':
        return S[()]
    return [p['coef'] for p in S if p['n'] == ()][0]


def zerojtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, 0, None, Q_fr, F, stride_fr, out_type, format).scattering(x)
    if out_type == 'dict':
        return S[()]
    return [p['coef'] for p in S if p['n'] == ()][0]


def same(cls, x, *args):
    return x


def rows(S, out_type, coefs):
    if out_type == 'list':
        return [(p['n'], p['coef']) for p in coefs]
    if out_type == 'dict':
        return [(n, c) for n, c in coefs.items()]
    return [((), coefs)]


def out1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)
    return (S.pad_left, S.pad_right), [p['j'] for p in S.psi1_f], [p['j'] for p in S.psi2_f], rows(S, out_type, S.scattering(x))


def outjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    return (S.pad_left, S.pad_right), [p['j'] for p in S.psi1_f], [p['j'] for p in S.psi2_f], rows(S, out_type, S.scattering(x))


def outkeras1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = cls(J, Q=(Q1, Q2), T=T, max_order=max_order, oversampling=oversampling)
    S.build((None, N))
    return (S.S.pad_left, S.S.pad_right), [p['j'] for p in S.S.psi1_f], [p['j'] for p in S.S.psi2_f], [((), S.call(x))]


def out2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    S = b2d(cls, J, M, N, L, max_order, pre_pad, out_type).scattering(x)
    if out_type == 'list':
        return [p['coef'] for p in S]
    return [S]


def outkeras2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    S = cls(J, L=L, max_order=max_order, pre_pad=pre_pad)
    c = 2 ** J
    if pre_pad:
        S.build((None, ((M + c) // c + 1) * c, ((N + c) // c + 1) * c))
    else:
        S.build((None, M, N))
    return [S.call(x)]
