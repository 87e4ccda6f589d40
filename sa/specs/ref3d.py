"""Documented 3D solid harmonic scattering, written densely."""
import math
import numpy as np
from scipy.special import sph_harm


def freqs(M, N, O):
    def axis(n):
        return np.fft.ifftshift(np.arange(-(n // 2), -(n // 2) + n)) * (2 * np.pi / n)
    z = axis(M).reshape(M, 1, 1) + np.zeros((M, N, O))
    y = axis(N).reshape(1, N, 1) + np.zeros((M, N, O))
    x = axis(O).reshape(1, 1, O) + np.zeros((M, N, O))
    return z, y, x


def dfact(n):
    r = 1
    while n > 1:
        r = r * n
        n = n - 2
    return r


def solid(M, N, O, sigma, l):
    """Fourier transforms of the solid harmonics of degree l times a Gaussian, m = -l..l"""
    z, y, x = freqs(M, N, O)
    r2 = z * z + y * y + x * x
    g = np.exp(-0.5 * r2 * sigma * sigma)
    if l == 0:
        return [g]
    radial = np.sqrt(r2 ** l) * g * sigma ** l
    azimuth = np.arctan2(y, x)
    polar = np.arctan2(z, np.sqrt(x * x + y * y)) + np.pi / 2
    if l % 2 == 0:
        norm = 1. / (2 * np.pi * math.sqrt(l + 0.5) * dfact(l + 1))
    else:
        norm = 1. / (2 ** (0.5 * (l + 3)) * math.sqrt(np.pi * (2 * l + 1)) * math.factorial((l + 1) // 2))
    norm = norm * (2 * np.pi) ** 1.5 * (-1j) ** l
    return [sph_harm(m, l, azimuth, polar) * radial * norm for m in range(-l, l + 1)]


def modulus(u, bank, covariant):
    """sqrt of the energy summed over m, or the modulus of the first component"""
    U = np.fft.fftn(u, axes=(-3, -2, -1))
    if not covariant:
        return np.abs(np.fft.ifftn(U * bank[0], axes=(-3, -2, -1)))
    e = 0
    for f in bank:
        e = e + np.abs(np.fft.ifftn(U * f, axes=(-3, -2, -1))) ** 2
    return np.sqrt(e)


def integrals(u, powers):
    return np.stack([(u ** q).sum(axis=(-3, -2, -1)) for q in powers], axis=-1)


def spec3d(x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    degrees = []
    for l in range(L + 1):
        banks = [solid(M, N, O, sigma_0 * 2 ** j, l) for j in range(J + 1)]
        first = []
        second = []
        for j1 in range(J + 1):
            u1 = modulus(x, banks[j1], rotation_covariant)
            first.append(integrals(u1, integral_powers))
            if max_order > 1:
                for j2 in range(j1 + 1, J + 1):
                    u2 = modulus(u1, banks[j2], rotation_covariant)
                    second.append(integrals(u2, integral_powers))
        degrees.append(np.stack(first + second, axis=-2))      # batch, path, power
    return np.stack(degrees, axis=-2)                           # batch, path, degree, power


def impl3d(cls, x, J, M, N, O, L, sigma_0, max_order, rotation_covariant, method, points, integral_powers):
    S = cls(J, (M, N, O), L=L, sigma_0=sigma_0, max_order=max_order, rotation_covariant=rotation_covariant,
            method=method, points=points, integral_powers=integral_powers)
    return S.scattering(x)
