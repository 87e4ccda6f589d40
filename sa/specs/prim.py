"""Closed forms of the backend primitives.  tail: the arrays carry a trailing axis, of size 1 when real and 2 (real,
imaginary) when complex."""
import numpy as np


def cx(z, tail):
    return z[..., 0] + 1j * z[..., 1] if tail else z


def re(x, tail):
    return x[..., 0] if tail else x


def pc(z, tail):
    return np.stack([z.real, z.imag], -1) if tail else z


def pr(x, tail):
    return x[..., None] if tail else x


def axes(d):
    return tuple(range(-d, 0))


def rfft(x, d, tail):
    return pc(np.fft.fftn(re(x, tail), axes=axes(d)), tail)


def cfft(x, d, tail):
    return pc(np.fft.fftn(cx(x, tail), axes=axes(d)), tail)


def ifft(x, d, tail):
    return pc(np.fft.ifftn(cx(x, tail), axes=axes(d)), tail)


def irfft(x, d, tail):
    return pr(np.fft.ifftn(cx(x, tail), axes=axes(d)).real, tail)


def sub(x, k, d, tail):
    """spectrum of the signal sampled every k"""
    y = np.fft.ifftn(cx(x, tail), axes=axes(d))
    y = y[..., ::k] if d == 1 else y[..., ::k, ::k]
    return pc(np.fft.fftn(y, axes=axes(d)), tail)


def modulus(x, tail):
    z = cx(x, tail)
    return pr(np.sqrt(z.real ** 2 + z.imag ** 2), tail)


def mulc(a, b, tail):
    return pc(cx(a, tail) * cx(b, tail), tail)


def mulr(a, b, tail):
    return pc(cx(a, tail) * re(b, tail), tail)


def total(x, tail):
    return pr(re(x, tail).sum(axis=-1, keepdims=True), tail)


def pad(x, i, j, mode, tail):
    n = x.shape[-1]
    if mode == 'reflect':
        parts = [x[..., i - t:i - t + 1] for t in range(i)] + [x] + [x[..., n - 2 - t:n - 1 - t] for t in range(j)]
    else:
        parts = [np.zeros(x.shape[:-1] + (i,)), x, np.zeros(x.shape[:-1] + (j,))]
    return pr(np.concatenate(parts, axis=-1), tail)


def padmode(f, x, i, j, mode):
    return f(x, i, j, mode=mode) if mode == 'constant' else f(x, i, j)


def cut(x, i, j, tail):
    return re(x, tail)[..., i:j]


def padrows(x, p, tail):
    y = re(x, tail)
    return pr(np.concatenate([y, np.zeros(y.shape[:-1] + (p,))], axis=-1), tail)


def padrowsc(x, p, tail):
    y = cx(x, tail)
    return pc(np.concatenate([y, np.zeros(y.shape[:-1] + (p,))], axis=-1), tail)


def swap(x, tail):
    return np.swapaxes(x, -3, -2) if tail else np.swapaxes(x, -2, -1)


def keeprows(x, top, step, tail):
    k = 1 + top // step
    return x[..., :k, :, :] if tail else x[..., :k, :]


def split(x, tail):
    return [x[..., i:i + 1, :, :] if tail else x[..., i:i + 1, :] for i in range(x.shape[-3 if tail else -2])]


def stackd(f, x, y, z, dim):
    return f([x, y, z], dim)


def rstackd(x, y, z, dim):
    return np.stack([x, y, z], dim)


def stack2(f, x, y, z):
    return f([x, y, z])


def rstack2(x, y, z):
    return np.stack([x, y, z], -3)


def stack3(f, x, y, z, w):
    return f([x, y, z, w], 1)


def rstack3(x, y, z, w):
    """degree varies fastest"""
    s = np.stack([x, y, z, w], 1)
    return s.reshape((s.shape[0], 2, 2) + s.shape[2:])


def inside(x, tail):
    return re(x, tail)[..., 1:-1, 1:-1]


def padder(c, x, t, b, l, r):
    return c.Pad([t, b, l, r], [x.shape[-2], x.shape[-1]])(x)


def rpadder(x, t, b, l, r, tail):
    m, n = x.shape[-2], x.shape[-1]
    parts = [x[..., t - i:t - i + 1, :] for i in range(t)] + [x] + [x[..., m - 2 - i:m - 1 - i, :] for i in range(b)]
    y = np.concatenate(parts, axis=-2)
    parts = [y[..., l - i:l - i + 1] for i in range(l)] + [y] + [y[..., n - 2 - i:n - 1 - i] for i in range(r)]
    return pr(np.concatenate(parts, axis=-1), tail)


def rot1(f, x):
    return f(x, None)


def rrot1(x, tail):
    return modulus(x, tail)


def rrot2(x, y, tail):
    z = cx(x, tail)
    return pr(np.sqrt(re(y, tail) ** 2 + z.real ** 2 + z.imag ** 2), tail)


def integrals(f, x, p, q):
    return f(f_abs(x), [p, q])


def f_abs(x):
    return x * x


def rintegrals(x, p, q):
    v = (x * x).reshape((x.shape[0], -1))
    return np.stack([(v ** p).sum(axis=1), (v ** q).sum(axis=1)], -1)


def flat_in(f, x):
    return f(x, (x.shape[-1],))


def rflat_in(x):
    return x.reshape((-1, 1, x.shape[-1]))


def flat_out(f, x, a, b, k):
    return f(x, (a, b), k)


def rflat_out(x, a, b, k):
    return x.reshape((a, b) + x.shape[-k:])
