"""A backend whose values carry, instead of samples, a bound on how much a change of the signal has been amplified: a
filter amplifies the largest deviation by its l1 norm, a modulus and the real part by at most 1, a subsampled inverse
Fourier transform picks samples, and a sum is
counted per summed sample."""
import numpy as np
from spec.drive import b1d, bjtfs


def l1(f):
    return np.abs(np.fft.ifft(f)).sum()


class Gain:
    name = 'gain'

    @staticmethod
    def shape(x):
        return x.shape

    @staticmethod
    def reshape_input(x, signal_shape):
        return x

    @staticmethod
    def reshape_output(y, batch_shape, n_kept_dims):
        return y

    @staticmethod
    def pad(x, pad_left, pad_right):
        return {'g': 1., 'n': x.shape[-1] + pad_left + pad_right, 'rows': 1, 'swap': False}

    @staticmethod
    def rfft(s):
        return s

    @staticmethod
    def cfft(s):
        return s

    @staticmethod
    def ifft(s):
        return s

    @staticmethod
    def irfft(s):
        return s

    @staticmethod
    def modulus(s):
        return s

    @staticmethod
    def cdgmm(s, f):
        return dict(s, g=s['g'] * l1(f))

    @staticmethod
    def subsample_fourier(s, k):
        if s['swap']:
            return dict(s, rows=s['rows'] // k)
        return dict(s, n=s['n'] // k)

    @staticmethod
    def average_global(s):
        """per summed sample"""
        return s

    @staticmethod
    def stack(parts, dim=-1):
        return dict(parts[0], rows=len(parts), g=max([p['g'] for p in parts]))

    @staticmethod
    def swap_time_frequency(s):
        return dict(s, swap=not s['swap'])

    @staticmethod
    def pad_frequency(s, padding):
        return dict(s, rows=s['rows'] + padding)

    @staticmethod
    def unpad_frequency(s, n1_max, n1_stride):
        return s

    @staticmethod
    def split_frequency_axis(s):
        return [s for _ in range(4096)]

    @staticmethod
    def unpad(s, i0, i1):
        return s


def final(S, y):
    return [(p['n'], p['coef']['g']) for p in y]


def g1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, 'list')
    S.backend = Gain
    return final(S, S.scattering(x))


def gjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, 'list', 'joint')
    S.backend = Gain
    return final(S, S.scattering(x))
