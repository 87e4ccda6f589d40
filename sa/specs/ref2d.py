"""Documented 2D scattering, written densely."""
import numpy as np


def gabor(M, N, sigma, theta, xi, slant):
    """Gabor function of orientation theta, summed over the 25 nearest periods"""
    c, s = np.cos(theta), np.sin(theta)
    g = 0
    for ex in (-2, -1, 0, 1, 2):
        for ey in (-2, -1, 0, 1, 2):
            u, v = np.mgrid[ex * M:M + ex * M, ey * N:N + ey * N]
            along = u * c + v * s
            across = -u * s + v * c
            g = g + np.exp(-(along * along + slant * slant * (across * across)) / (2 * sigma * sigma) + 1.j * xi * along)
    return g / (2 * 3.1415 * sigma * sigma / slant)


def morlet(M, N, sigma, theta, xi, slant):
    w = gabor(M, N, sigma, theta, xi, slant)
    m = gabor(M, N, sigma, theta, 0, slant)
    return w - m * (np.sum(w) / np.sum(m))


def per(f, k):
    """filter on the grid subsampled by 2**k: frequencies outside the low band are dropped, the rest is folded"""
    M, N = f.shape
    if k == 0:
        return f
    u, v = np.mgrid[0:M, 0:N]
    c = 2 ** k
    rows = (u < (M // (2 * c))) | (u >= M // (2 * c) + M - M // c)
    cols = (v < (N // (2 * c))) | (v >= N // (2 * c) + N - N // c)
    g = np.where(rows & cols, f, 0.)
    return g.reshape(c, M // c, c, N // c).sum(axis=(0, 2))


def psi_hat(M, N, j, theta, L):
    w = morlet(M, N, 0.8 * 2 ** j, (int(L - L / 2 - 1) - theta) * np.pi / L, 3.0 / 4.0 * np.pi / 2 ** j, 4.0 / L)
    return np.real(np.fft.fft2(w))


def phi_hat(M, N, J):
    return np.real(np.fft.fft2(gabor(M, N, 0.8 * 2 ** (J - 1), 0, 0, 1.0)))


def bank(M, N, J, L):
    return [{'j': j, 'theta': t, 'f': psi_hat(M, N, j, t, L)} for j in range(J) for t in range(L)]


def conv(x, f):
    return np.fft.ifft2(np.fft.fft2(x) * f)


def paths(x, J, M, N, L, max_order, pre_pad):
    c = 2 ** J
    Mp = ((M + c) // c + 1) * c
    Np = ((N + c) // c + 1) * c
    if pre_pad:
        xp = x
    else:
        xp = np.pad(x, [(0, 0)] * (len(x.shape) - 2) + [((Mp - M) // 2, (Mp - M + 1) // 2), ((Np - N) // 2, (Np - N + 1) // 2)],
                    mode='reflect')
    phi = phi_hat(Mp, Np, J)
    psi = bank(Mp, Np, J, L)

    def out(u, k):
        s = np.real(conv(u, per(phi, k)))
        return s[..., ::2 ** (J - k), ::2 ** (J - k)][..., 1:-1, 1:-1]

    zero = [{'n': (), 'j': (), 'theta': (), 'coef': out(xp, 0)}]
    first = []
    second = []
    for n1, p1 in enumerate(psi):
        j1 = p1['j']
        u1 = np.abs(conv(xp, p1['f'])[..., ::2 ** j1, ::2 ** j1])
        first.append({'n': (n1,), 'j': (j1,), 'theta': (p1['theta'],), 'coef': out(u1, j1)})
        if max_order > 1:
            for n2, p2 in enumerate(psi):
                j2 = p2['j']
                if j2 > j1:
                    u2 = np.abs(conv(u1, per(p2['f'], j1))[..., ::2 ** (j2 - j1), ::2 ** (j2 - j1)])
                    second.append({'n': (n1, n2), 'j': (j1, j2), 'theta': (p1['theta'], p2['theta']), 'coef': out(u2, j2)})
    return zero + first + second


def norm(S, out_type):
    if out_type == 'list':
        return [(p['n'], p['coef']) for p in S]
    return S


def spec2d(x, J, M, N, L, max_order, pre_pad, out_type):
    S = paths(x, J, M, N, L, max_order, pre_pad)
    if out_type == 'list':
        return [(p['n'], p['coef']) for p in S]
    return np.stack([p['coef'] for p in S], axis=-3)


def impl2d(cls, x, J, M, N, L, max_order, pre_pad, out_type):
    S = cls(J, (M, N), L=L, max_order=max_order, pre_pad=pre_pad, out_type=out_type)
    return norm(S.scattering(x), out_type)
