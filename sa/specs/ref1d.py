"""Documented 1D and time-frequency scattering, written densely (full-length Fourier products, strided slices)."""
import math
import numpy as np


def parse(T, J, N):
    if T is None:
        return 2 ** J, 'local'
    if T == 'global':
        return 2 ** J, 'global'
    if T == 0:
        return 2 ** J, False
    return T, 'local'


def morlet(N, xi, sigma):
    """periodised Gabor minus the multiple of the periodised Gaussian that cancels its mean, unit l1 norm"""
    P = min(int(math.ceil(math.sqrt(-2 * (sigma ** 2) * math.log(1e-7)) + 1)), 5)
    w = np.arange((1 - P) * N, P * N, dtype=float) / float(N)
    if P == 1:
        w_low = np.fft.fftfreq(N)
    else:
        w_low = w
    low = np.exp(-(w_low ** 2) / (2 * sigma ** 2)).reshape(2 * P - 1, N).mean(axis=0)
    if xi is None:
        f = low
    else:
        gab = np.exp(-((w - xi) ** 2) / (2 * sigma ** 2)).reshape(2 * P - 1, N).mean(axis=0)
        f = gab - low * (gab[0] / low[0])
    return f / np.abs(np.fft.ifft(f)).sum()


def lattice(J, Q):
    """centre frequencies and bandwidths: constant-Q region, then constant-bandwidth region"""
    xi = max(1. / (1. + 2. ** (3. / Q)), 0.35)
    q = 1. / 2. ** (1. / Q)
    sigma = xi * ((1 - q) / (1 + q)) * (1. / math.sqrt(2 * math.log(1. / math.sqrt(0.5))))
    sigma_min = 0.1 / 2 ** J
    out = []
    if sigma <= sigma_min:
        xi = sigma
    else:
        out.append((xi, sigma))
        while sigma > sigma_min * 2. ** (1. / Q):
            xi = xi / 2. ** (1. / Q)
            sigma = sigma / 2. ** (1. / Q)
            out.append((xi, sigma))
    elbow = xi
    for k in range(Q - 1):
        xi = xi - 1 / Q * elbow
        out.append((xi, sigma_min))
    return out


def scale(xi, sigma):
    """largest j such that subsampling by 2**j does not alias"""
    return int(math.floor(-math.log2(min(abs(xi) + 5. * sigma, 0.5)))) - 1


def bank(N, J, Q):
    return [{'xi': xi, 'sigma': s, 'j': scale(xi, s), 'f': morlet(N, xi, s)} for (xi, s) in lattice(J, Q)]


def per(f, k):
    """filter on the grid subsampled by 2**k"""
    return f.reshape(2 ** k, -1).sum(axis=0)


def conv(x, f):
    return np.fft.ifft(np.fft.fft(x) * f)


def stride_of(T, J, N, stride, oversampling):
    t = parse(T, J, N)[0]
    l2 = int(math.floor(math.log2(t)))
    if oversampling:
        return l2 - oversampling
    if stride is None:
        return l2
    return int(math.log2(stride))


def crop(y, left, N, res):
    return y[..., -((-left) // 2 ** res): -((-(left + N)) // 2 ** res)]


def paths(x, left, right, J, N, Q1, Q2, T, stride, max_order, oversampling):
    """list of (n, j, order, coefficients) in the documented order"""
    Tv, avg = parse(T, J, N)
    ls = stride_of(T, J, N, stride, oversampling)
    local = avg == 'local'
    Np = N + left + right
    xp = np.pad(x, [(0, 0)] * (len(x.shape) - 1) + [(left, right)], mode='reflect')
    phi = morlet(Np, None, 0.1 / Tv)
    psi1 = bank(Np, J, Q1)
    psi2 = bank(Np, J, Q2)

    def out(u, k):
        if avg == 'local':
            return crop(np.real(conv(u, per(phi, k)))[..., ::2 ** (ls - k)], left, N, ls)
        if avg == 'global':
            return np.sum(u, axis=-1, keepdims=True)
        return crop(u, left, N, k)

    zero = [{'n': (), 'j': (), 'order': 0, 'coef': out(xp, 0)}]
    first = []
    second = []
    for n1, p1 in enumerate(psi1):
        j1 = p1['j']
        k1 = min(j1, ls) if local else j1
        u1 = np.abs(conv(xp, p1['f'])[..., ::2 ** k1])
        first.append({'n': (n1,), 'j': (j1,), 'order': 1, 'coef': out(u1, k1)})
        if max_order > 1:
            for n2, p2 in enumerate(psi2):
                j2 = p2['j']
                if j2 > j1:
                    k2 = min(j2, ls) if local else j2
                    u2 = np.abs(conv(u1, per(p2['f'], k1))[..., ::2 ** (k2 - k1)])
                    second.append({'n': (n1, n2), 'j': (j1, j2), 'order': 2, 'coef': out(u2, k2)})
    return zero + first + second


def container(S, out_type):
    if out_type == 'list':
        return [(p['n'], p['coef']) for p in S]
    if out_type == 'dict':
        return {p['n']: p['coef'] for p in S}
    return np.stack([p['coef'] for p in S], axis=-2)


def norm(S, out_type):
    """implementation output, in the same form"""
    if out_type == 'list':
        return [(p['n'], p['coef']) for p in S]
    return S


def spec1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = cls(J, (N,), Q=(Q1, Q2), T=T, stride=stride, max_order=max_order, oversampling=oversampling, out_type=out_type)
    return container(paths(x, S.pad_left, S.pad_right, J, N, Q1, Q2, T, stride, max_order, oversampling), out_type)


def impl1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = cls(J, (N,), Q=(Q1, Q2), T=T, stride=stride, max_order=max_order, oversampling=oversampling, out_type=out_type)
    return norm(S.scattering(x), out_type)
