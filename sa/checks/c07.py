"""C07: PyTorch filters are non-trainable buffers, used by every call."""
import math

import numpy as np

from ..lemma import Ob, Term, Cls, FRONTENDS
from ..models import A, ARGS, FAM
from .c03 import small

EXPLANATION = ('per PyTorch class: (a) a replica of the module whose buffers are c times those of the module is called, and every coefficient must be homogeneous of the '
               'degree of its path (one factor per filter on it), so every filter of every path is read from a buffer at call time; (b) the coefficients equal the documented '
               'cascade, so each buffer is loaded into its own slot; (c) no registration of the module is a parameter or a non-persistent buffer, and buffer names are distinct')
TECHNIQUE = 'value-graph extraction by abstract interpretation with symbolic buffers; homogeneity-degree and dense-specification comparison by value numbering; rule over registration events'
NOTE = 'Decided per finite model of the parameters. Device moves are represented by the scaling of the buffers: both reach exactly the registered tensors.'
FLOOR = 1
NQ = {'1d': 24, 'jtfs': 12, '2d': 8, '3d': 12}
NT = {'1d': 200, 'jtfs': 80, '2d': 40, '3d': 120}


def degrees(t, m):
    T, F = m.get('T'), m.get('F')
    local = T not in (0, 'global')
    localf = F not in (0, 'global')

    def d1(n):
        return len(n) + (1 if local else 0)

    def d2(n):
        return len(n) + 1

    def dj(n):
        if not n:
            return 1 if local else 0
        k = n if m['format'] == 'joint' else n[1:]
        first = len(k) == 1
        return 3 + (1 if (not first and local) else 0) + (1 if localf and k[-1] != 0 else 0)
    return {'1d': d1, '2d': d2, 'jtfs': dj}[t]


def ratio(a, b):
    a, b = np.asarray(a.a), np.asarray(b.a)
    if a.shape != b.shape:
        return 'shape', a.shape, b.shape
    den = np.linalg.norm(b)
    if den == 0:
        return None
    r = np.linalg.norm(a) / den
    if r <= 0:
        return None
    return math.log2(r)


def bad(r, d, what):
    if r is None:
        return None
    if isinstance(r, tuple):
        return '%s: shape depends on the buffer values' % what
    if r < d - 1e-3:
        return '%s: %d filters on its path, but it scales like %.3g factors of the buffers: a filter is not read from its buffer' % (what, d, r)
    if abs(r - round(r)) > 1e-3:
        return '%s: not homogeneous in the buffers (degree %.4g)' % (what, r)


def cmp(t):
    def f(a, b, m):
        if a[0] == 'raise' or b[0] == 'raise':
            if a[0] == b[0] or 'AssertionError' in (a[1], b[1]):
                return None
            if a[0] == 'raise':
                return 'a module with scaled buffers raises %s at %s' % (a[1], a[2])
            return None
        if t == '3d':
            x, y = np.asarray(a[1].a), np.asarray(b[1].a)
            if x.shape != y.shape:
                return 'shape depends on the buffer values'
            P = x.shape[-3]
            n1 = m['J'] + 1
            for p in range(P):
                o = 1 if p < n1 else 2
                for l in range(x.shape[-2]):
                    for k, q in enumerate(m['integral_powers']):
                        nb = np.linalg.norm(y[..., p, l, k])
                        if nb == 0:
                            continue
                        r = math.log2(np.linalg.norm(x[..., p, l, k]) / nb)
                        if r < o * q - 1e-3:
                            return 'path %d, degree l=%d, power %s scales like %.3g factors of the buffers instead of %.3g: a filter is not read from its buffer' % (
                                p, l, q, r, o * q)
            return None
        d = degrees(t, m)
        if len(a[1]) != len(b[1]):
            return 'number of coefficients depends on the buffer values'
        for (n, x), (_, y) in zip(a[1], b[1]):
            n = tuple(n)
            r = bad(ratio(x, y), d(n), 'coefficient %s' % (n,))
            if r:
                return r
    return f


def watch(side):
    def wanted(e):
        return e.kind in ('register_buffer', 'register_other')

    def judge(ev, e, env):
        if e.kind == 'register_other':
            return 'a filter is registered as a %s' % e.data[0]
        from ..evalr import force
        try:
            n = force(ev.eval(e.data[0], env)) if not isinstance(e.data[0], str) else e.data[0]
            keep = e.data[2] if isinstance(e.data[2], bool) else force(ev.eval(e.data[2], env))
            keep = bool(np.asarray(getattr(keep, 'a', keep)))
        except Exception:
            return None
        if not keep:
            return 'filter %s is registered as a non-persistent buffer: it is not saved' % n
        if isinstance(n, str):
            names = ev.__dict__.setdefault('buffer_names', set())
            if n in names:
                return 'two buffers are registered under the name %r' % n
            names.add(n)
        return None
    return wanted, judge


SPEC = {'1d': 'params.sp1d', 'jtfs': 'refjtfs.specjtfs', '2d': 'params.sp2d', '3d': 'params.sp3d'}


def obligations(tier, seed):
    for t in ('1d', 'jtfs', '2d', '3d'):
        anchor = '%s.%s' % FRONTENDS[(t, 'torch')][:2]
        a = A('x', *ARGS[t])
        out = {} if t == '3d' else {'out': 'list'}
        fam = FAM[t](NQ[t], NT[t], dtype='float32', batches=[(), (2,)], filt=small(t), **out)

        def models(tier, seed, fam=fam):
            for m in fam(tier, seed):
                yield dict(m, c=2.0)
        b = A('x', 'c') + A(*ARGS[t])
        yield Ob('C07/%s/buffers' % t, anchor, Term('conc.q' + t, [Cls(t, 'torch')] + b, 'torch'), None, models,
                 rel=lambda m, run: run(dict(m, c=1.0)), cmp=cmp(t), watch=watch, note='every filter on every path of %s is read from a registered buffer' % t)
        yield Ob('C07/%s/slots' % t, anchor, Term('params.key' + t, [Cls(t, 'torch')] + a + ['torch'], 'torch'), Term(SPEC[t], [Cls(t, 'numpy')] + a, 'np'), fam,
                 note='%s on PyTorch computes the documented cascade from its buffers' % t)
