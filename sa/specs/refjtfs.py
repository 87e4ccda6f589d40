"""Documented joint time-frequency scattering, written densely."""
import math
import numpy as np
from spec.ref1d import morlet, bank, per, conv, parse, crop, scale, lattice


def conv_fr(y, f):
    """convolution along the log-frequency axis (next to last)"""
    return np.fft.ifft(np.fft.fft(y, axis=-2) * f.reshape(-1, 1), axis=-2)


def banks_fr(n, J_fr, Q_fr):
    low = {'xi': 0, 'j': J_fr, 'f': morlet(n, None, 0.1 / 2 ** J_fr)}
    up = [{'xi': xi, 'j': scale(xi, s), 'f': morlet(n, xi, s)} for (xi, s) in lattice(J_fr, Q_fr)]
    down = [{'xi': -xi, 'j': scale(xi, s), 'f': morlet(n, -xi, s)} for (xi, s) in lattice(J_fr, Q_fr)]
    return [low] + up + down


def paths(x, left, right, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, whole):
    """joint paths; whole: keep the padded log-frequency axis"""
    Tv, avg = parse(T, J, N)
    ls = int(math.floor(math.log2(Tv))) if stride is None else int(math.log2(stride))
    Fv, avg_fr = parse(F, J_fr, (J + 1) * Q1)
    lsf = int(math.floor(math.log2(Fv))) if stride_fr is None else int(math.log2(stride_fr))
    Np = N + left + right
    n_fr_pad = (((J + 1) * Q1 + 8 * min(Fv, 2 ** J_fr)) // 2 ** J_fr) * 2 ** J_fr
    xp = np.pad(x, [(0, 0)] * (len(x.shape) - 1) + [(left, right)], mode='reflect')
    phi = morlet(Np, None, 0.1 / Tv)
    phi_fr = morlet(n_fr_pad, None, 0.1 / Fv)
    psi1 = bank(Np, J, Q1)
    psi2 = bank(Np, J, Q2)
    psi_fr = banks_fr(n_fr_pad, J_fr, Q_fr)
    local = avg == 'local'

    def lowpass(u, k):
        return np.real(conv(u, per(phi, k)))[..., ::2 ** max(ls - k, 0)]

    def joint(rows, n2, k2, j2):
        """all frequency filters over a stack of rows (order 1 when n2 is None)"""
        res = []
        n1_max = len(rows)
        y = np.stack(rows, axis=-2)
        y = np.pad(y, [(0, 0)] * (len(y.shape) - 2) + [(0, n_fr_pad - n1_max), (0, 0)], mode='constant')
        for n_fr, p in enumerate(psi_fr):
            if n2 is None and p['xi'] < 0:
                continue
            kf = min(p['j'], lsf) if avg_fr == 'local' else p['j']
            u = np.abs(conv_fr(y, p['f'])[..., ::2 ** kf, :])
            # time
            if avg == 'global':
                u = np.sum(u, axis=-1, keepdims=True)
            elif n2 is None:
                u = crop(u, left, N, ls)
            elif local:
                u = crop(lowpass(u, k2), left, N, ls)
            else:
                u = crop(u, left, N, j2)
            # log-frequency
            step = 2 ** kf
            if avg_fr == 'global':
                u = np.sum(u, axis=-2, keepdims=True)
                step = n1_max
            elif avg_fr == 'local' and p['xi'] != 0:
                u = np.real(conv_fr(u, per(phi_fr, kf)))[..., ::2 ** (lsf - kf), :]
                step = 2 ** lsf
            if not whole:
                u = u[..., :1 + n1_max // step, :]
            n = (n_fr,) if n2 is None else (n2, n_fr)
            res.append({'n': n, 'coef': u, 'n1_max': n1_max, 'step': step, 'order': len(n)})
        return res

    if local:
        s0 = crop(lowpass(xp, 0), left, N, ls)
    elif avg == 'global':
        s0 = np.sum(xp, axis=-1, keepdims=True)
    else:
        s0 = crop(xp, left, N, 0)
    out = [{'n': (), 'coef': s0, 'order': 0}]

    u1 = []
    s1 = []
    for p1 in psi1:
        k1 = min(p1['j'], ls) if local else p1['j']
        u = np.abs(conv(xp, p1['f'])[..., ::2 ** k1])
        u1.append((p1['j'], k1, u))
        s1.append(lowpass(u, k1))
    out = out + joint(s1, None, None, None)
    for n2, p2 in enumerate(psi2):
        j2 = p2['j']
        k2 = min(j2, ls) if local else j2
        rows = []
        for j1, k1, u in u1:
            if j1 < j2:
                rows.append(conv(u, per(p2['f'], k1))[..., ::2 ** (k2 - k1)])
        if len(rows) > 0:
            out = out + joint(rows, n2, k2, j2)
    return out


def explode(S):
    out = [S[0]]
    for p in S[1:]:
        for i, n1 in enumerate(range(0, p['n1_max'], p['step'])):
            out.append({'n': (n1,) + p['n'], 'coef': p['coef'][..., i, :], 'order': p['order']})
    return out


def specjtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = cls(J=J, J_fr=J_fr, shape=(N,), Q=(Q1, Q2), T=T, stride=stride, Q_fr=Q_fr, F=F, stride_fr=stride_fr,
            out_type=out_type, format=format)
    whole = out_type == 'array' and format == 'joint'
    P = paths(x, S.pad_left, S.pad_right, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, whole)
    if format == 'time':
        P = explode(P)
    if out_type == 'list':
        return [(p['n'], p['coef']) for p in P]
    if out_type == 'dict':
        return {p['n']: p['coef'] for p in P}
    if format == 'joint':
        return np.stack([p['coef'] for p in P[1:]], axis=-3)
    return np.stack([p['coef'] for p in P], axis=-2)


def impljtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = cls(J=J, J_fr=J_fr, shape=(N,), Q=(Q1, Q2), T=T, stride=stride, Q_fr=Q_fr, F=F, stride_fr=stride_fr,
            out_type=out_type, format=format).scattering(x)
    if out_type == 'list':
        return [(p['n'], p['coef']) for p in S]
    return S
