"""A backend whose values carry the history of resolutions of a signal, and filters that carry their own."""
from spec.drive import b1d, bjtfs, b2d


def wrap(kind, i, p):
    levels = []
    k = 0
    for f in p['levels']:
        levels = levels + [{'who': (kind, i, k), 'size': f.shape[-2:] if kind in ('psi2d', 'phi2d') else (f.shape[0],), 'j': p['j']}]
        k = k + 1
    return dict(p, levels=levels)


def wrapall(kind, ps):
    return [wrap(kind, i, p) for i, p in enumerate(ps)]


class Tracker:
    """time axis: n samples, subsampled by 2 ** res; frequency axis: rows, subsampled by 2 ** fr"""
    name = 'track'

    @staticmethod
    def shape(x):
        return x.shape

    @staticmethod
    def reshape_input(x, signal_shape):
        return x

    @staticmethod
    def reshape_output(y, batch_shape, n_kept_dims):
        return y

    @staticmethod
    def pad(x, pad_left, pad_right):
        return {'n': x.shape[-1] + pad_left + pad_right, 'sub': 1, 'rows': 1, 'fr': 1, 'swap': False, 'log': [], 'last': None}

    @staticmethod
    def rfft(s):
        return dict(s, last=None)

    @staticmethod
    def cfft(s):
        return dict(s, last=None)

    @staticmethod
    def ifft(s):
        return s

    @staticmethod
    def irfft(s):
        return s

    @staticmethod
    def modulus(s):
        return dict(s, log=s['log'] + [('modulus', s['sub'], s['fr'])])

    @staticmethod
    def cdgmm(s, f):
        have = s['rows'] if s['swap'] else s['n']
        at = s['fr'] if s['swap'] else s['sub']
        return dict(s, last=f, log=s['log'] + [('filter', f['who'], f['size'][0], have, at, s['swap'])])

    @staticmethod
    def subsample_fourier(s, k):
        if s['swap']:
            t = dict(s, rows=s['rows'] // k, fr=s['fr'] * k)
            left, at = s['rows'] % k, s['fr'] * k
        else:
            t = dict(s, n=s['n'] // k, sub=s['sub'] * k)
            left, at = s['n'] % k, s['sub'] * k
        return dict(t, log=s['log'] + [('subsample', k, left, at, s['last']['j'], s['last']['who'])])

    @staticmethod
    def average_global(s):
        return dict(s, log=s['log'] + [('global', s['swap'])])

    @staticmethod
    def stack(parts, dim=-1):
        log = []
        for p in parts:
            log = log + p['log']
        res = [(p['sub'], p['n']) for p in parts]
        return dict(parts[0], rows=len(parts), log=log + [('stack', res)])

    @staticmethod
    def swap_time_frequency(s):
        return dict(s, swap=not s['swap'])

    @staticmethod
    def pad_frequency(s, padding):
        return dict(s, rows=s['rows'] + padding, log=s['log'] + [('padrows', padding)])

    @staticmethod
    def unpad_frequency(s, n1_max, n1_stride):
        return dict(s, log=s['log'] + [('keeprows', n1_max, n1_stride, s['fr'])])

    @staticmethod
    def split_frequency_axis(s):
        return [s for _ in range(4096)]

    @staticmethod
    def unpad(s, i0, i1):
        return dict(s, log=s['log'] + [('unpad', i0, i1, s['sub'], s['n'])])


def final(S, left, y):
    return [left, [p['j'] for p in S.psi1_f], [p['j'] for p in S.psi2_f], [(p['n'], p['coef']) for p in y]]


def t1d(cls, x, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, 'list')
    S.phi_f = wrap('phi', 0, S.phi_f)
    S.psi1_f = wrapall('psi1', S.psi1_f)
    S.psi2_f = wrapall('psi2', S.psi2_f)
    S.backend = Tracker
    return final(S, S.pad_left, S.scattering(x)) + [[]]


def tjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, 'list', 'joint')
    S.phi_f = wrap('phi', 0, S.phi_f)
    S.psi1_f = wrapall('psi1', S.psi1_f)
    S.psi2_f = wrapall('psi2', S.psi2_f)
    phi, psis = S.filters_fr
    S.filters_fr = (wrap('phi_fr', 0, phi), wrapall('psi_fr', psis))
    S.backend = Tracker
    return final(S, S.pad_left, S.scattering(x)) + [[p['j'] for p in psis]]


class Plane:
    """square subsampling of images"""
    name = 'track'

    @staticmethod
    def rfft(s):
        return dict(s, last=None)

    @staticmethod
    def ifft(s):
        return s

    @staticmethod
    def irfft(s):
        return s

    @staticmethod
    def modulus(s):
        return dict(s, log=s['log'] + [('modulus', s['sub'], 1)])

    @staticmethod
    def cdgmm(s, f):
        return dict(s, last=f, log=s['log'] + [('filter', f['who'], f['size'], (s['m'], s['n']), s['sub'], False)])

    @staticmethod
    def subsample_fourier(s, k):
        return dict(s, m=s['m'] // k, n=s['n'] // k, sub=s['sub'] * k,
                    log=s['log'] + [('subsample', k, s['m'] % k + s['n'] % k, s['sub'] * k, s['last']['j'], s['last']['who'])])

    @staticmethod
    def stack(parts):
        return parts


def t2d(cls, core, x, J, M, N, L, max_order, pre_pad, out_type):
    S = b2d(cls, J, M, N, L, max_order, pre_pad, 'list')
    c = 2 ** J
    size = ((M // c + 2) * c, (N // c + 2) * c)
    y = core(x, lambda v: {'m': size[0], 'n': size[1], 'sub': 1, 'log': [], 'last': None}, lambda v: v, Plane, J, L,
             wrap('phi2d', 0, S.phi), wrapall('psi2d', S.psi), max_order, 'list')
    return [0, [p['j'] for p in S.psi], [p['j'] for p in S.psi], [(p['n'], p['coef']) for p in y], []]
