"""C15: Keras layers rebuild from their config and declare their true shape."""
import numpy as np

from ..evalr import force, deep, raw
from ..extract import atom
from ..lemma import Ob, Term, Cls, Arr, FRONTENDS, default_cmp
from ..models import FAM
from .c03 import small
from .c10 import conf

EXPLANATION = ('per Keras layer: layers recreated from get_config (of a fresh layer, a built layer, a layer that was already called, and repeatedly; through the constructor and through '
               'from_config) compute the coefficients of the original; compute_output_shape, before and after a call, of the batch input shape and of the input itself, equals the shape of the '
               'coefficients, for unknown (None) and known leading axes')
TECHNIQUE = 'value-graph extraction by abstract interpretation with Layer/TensorShape denotations; graph identity, random-interpretation value numbering, shape comparison'
NOTE = 'Layer.__call__, weight tracking and graph mode of Keras are not modelled: build, call, get_config and compute_output_shape are analysed directly. T=0 has no array output and is excluded.'
FLOOR = 1
FA = {'1d': ['N', 'J', 'Q', 'T', 'max_order', 'oversampling'], '2d': ['J', 'L', 'max_order', 'pre_pad']}


def models(t, nq, nt):
    def gen(tier, seed):
        i = seed
        ok = lambda m: small(t)(m) and (t == '2d' or (m['T'] != 0 and m['stride'] is None))
        for m in FAM[t](nq, nt, dtype='float32', batches=[(2,), (3,), (2, 3), (1,), (1, 2, 2)], filt=ok, out=['array'])(tier, seed):
            i += 1
            m = conf(t, m, i, 'keras')
            x = m['x']
            if t == '1d' and m['Q'][1] == 1 and i % 3:
                m['Q'] = m['Q'][0] if i % 3 == 1 else (m['Q'][0],)
            if t == '1d':
                m['N'] = x.shape[-1]
            s = tuple(x.shape)
            m['ishape'] = (None,) + s[1:] if i % 2 else s
            if len(s) > (2 if t == '1d' else 3) and i % 4 == 1:
                m['ishape'] = (None, None) + s[2:]
            m['refusal'] = True
            yield m
    return gen


def cmp(a, b, m):
    if a[0] == 'raise' and b[0] == 'raise' and a[1] == b[1]:
        return None
    return default_cmp(a, b, m)


def shape_of(v):
    v = deep(v)
    if isinstance(v, dict):
        v = v.get('dims', v)
    if hasattr(v, 'a') and getattr(v.a, 'ndim', 0) == 1:
        v = list(v.a)
    if isinstance(v, (list, tuple)):
        out = []
        for d in v:
            d = force(d)
            if d is not None and hasattr(d, 'a'):
                d = d.a.item()
            if d is not None and not isinstance(d, (int, np.integer)):
                return None
            out.append(d)
        return out
    return None


def cmp_shape(a, b, m):
    if a[0] == 'raise':
        return None if a[1] == 'AssertionError' else 'raises %s at %s: %s' % (a[1], a[2], a[3])
    y, s1, s2, s3 = [force(x) for x in a[1]]
    have = list(y.a.shape)
    for what, s, ish in (('', s1, m['ishape']), (' after a call', s2, m['ishape']), (' for the input', s3, m['x'].shape)):
        d = shape_of(s)
        if d is None:
            return 'compute_output_shape%s does not return a shape: %r' % (what, s)
        nb = len(m['x'].shape) - (1 if m.get('N') is not None else 2)
        want = list(ish[:nb]) + have[nb:]
        if d != want:
            return 'declares the shape %s%s, the output has shape %s' % (d, what, want)
    return None


def obligations(tier, seed):
    for t in ('1d', '2d'):
        anchor = '%s.%s' % FRONTENDS[(t, 'keras')][:2]
        cls = Cls(t, 'keras')
        a = [atom('x', 'array'), atom('ishape', 'any')] + [atom(k, 'any') for k in FA[t]]
        n = {'1d': 40, '2d': 25}[t]
        yield Ob('C15/%s/config' % t, anchor, Term('ker.trip' + t, [cls] + a, 'tf'), Term('ker.orig' + t, [cls] + a, 'tf'), models(t, n // 2, n * 5), cmp=cmp, note='configuration round trip')
        yield Ob('C15/%s/shape' % t, anchor, Term('ker.shape' + t, [cls] + a, 'tf'), lambda m: ('value', None), models(t, n, n * 8), cmp=cmp_shape, note='declared output shape')
