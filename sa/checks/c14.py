"""C14: scikit-learn transformers obey the estimator contract."""
import numpy as np

from ..evalr import force, raw
from ..extract import atom
from ..lemma import Ob, Term, Cls, Arr, FRONTENDS, default_cmp
from ..models import FAM
from .c03 import small, cmp
from .c10 import conf

EXPLANATION = ('per transformer class: the keys of get_params are exactly the constructor arguments and each value is the one given (an integer shape or Q_fr may come back as the 1-tuple it '
               'means, the backend as the backend object, a stride implied by oversampling as that stride); an estimator rebuilt from get_params, before and after use, computes the coefficients of '
               'the original; fit returns the estimator; predict, transform and fit_transform of a matrix of flattened samples have one row per sample, equal to the flattened coefficients of '
               'that sample')
TECHNIQUE = 'value-graph extraction by abstract interpretation with BaseEstimator/TransformerMixin denotations; graph identity and random-interpretation value numbering'
NOTE = 'Arrays only (out_type=array), the documented use of these classes. set_params is inherited from scikit-learn and not covered.'
FLOOR = 1
FA = {'1d': ['J', 'shape', 'Q', 'T', 'stride', 'max_order', 'oversampling'],
      'jtfs': ['J', 'J_fr', 'shape', 'Q', 'T', 'stride', 'Q_fr', 'F', 'stride_fr', 'format'],
      '2d': ['J', 'shape', 'L', 'max_order', 'pre_pad'],
      '3d': ['J', 'shape', 'L', 'sigma_0', 'max_order', 'rotation_covariant', 'method', 'points', 'integral_powers']}


def forms(t, m, i):
    m = conf(t, m, i, 'sklearn')
    if t in ('1d', 'jtfs'):
        if i % 2:
            m['shape'] = m['shape'][0]
        if m['Q'][1] == 1 and i % 3:
            m['Q'] = m['Q'][0] if i % 3 == 1 else (m['Q'][0],)
        if t == 'jtfs' and i % 2:
            m['Q_fr'] = (m['Q_fr'],)
    return m


def models(t, nq, nt, flat=False):
    def gen(tier, seed):
        i = seed
        ok = lambda m: small(t)(m) and m.get('T') != 0 and not (t == 'jtfs' and m['F'] == 0 and m['format'] == 'joint')
        bs = [(2,), (3,), (1,)] if flat else [(), (2,)]
        for m in FAM[t](nq, nt, dtype='float64', batches=bs, filt=ok, **(dict(out=['array']) if t != '3d' else {}))(tier, seed):
            i += 1
            m = forms(t, m, i)
            m['refusal'] = True
            m.pop('out_type', None)
            if flat:
                x = m['x']
                m['xf'] = x
                n = {'1d': 1, 'jtfs': 1, '2d': 2, '3d': 3}[t]
                m['xf'] = Flat(x, x.shape[:len(x.shape) - n] + (-1,))
            yield m
    return gen


class Flat(Arr):
    """the samples of parent, flattened"""
    def __init__(self, parent, shape):
        Arr.__init__(self, np.empty(parent.shape).reshape(shape).shape, parent.dtype)
        self.parent = parent

    def make(self, fw, salt=0):
        from ..evalr import AV
        v = self.parent.make(fw, salt)
        return AV(v.a.reshape(self.shape), v.dt, fw)


def expected(t):
    names = FA[t]

    def rhs(m):
        d = {k: m[k] for k in names}
        if t != '3d':
            d['out_type'] = 'array'
        return ('value', d)
    return rhs


def plain(v):
    v = force(v)
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    return raw(v) if hasattr(v, 'a') else v


def cmp_params(a, b, m):
    if a[0] == 'raise':
        return None if a[1] == 'AssertionError' and m.get('refusal') else 'raises %s at %s' % (a[1], a[2])
    got, want = force(a[1]), b[1]
    if not isinstance(got, dict):
        return 'get_params does not return a dictionary'
    if set(got) != set(want):
        miss, more = sorted(set(want) - set(got)), sorted(map(str, set(got) - set(want)))
        return 'get_params %s' % ('misses %s' % miss[0] if miss else 'reports %s, which is no constructor argument' % more[0])
    for k, w in want.items():
        g, w = plain(got[k]), plain(w)
        ok = g == w and isinstance(g, bool) == isinstance(w, bool)
        if k in ('shape', 'Q_fr') and not ok:
            ok = g == (w if isinstance(w, tuple) else (w,)) or (g,) == w
        if k == 'stride' and not ok and w is None and m.get('oversampling'):
            T = 2 ** m['J'] if m['T'] is None else m['T']
            ok = T not in (0, 'global') and g == 2 ** (int(np.floor(np.log2(T))) - m['oversampling'])
        if not ok:
            return 'get_params reports %s=%r where %r was given' % (k, g, w)
    return None


def cmp_scat(a, b, m):
    if a[0] == 'raise' and b[0] == 'raise' and a[1] == b[1]:
        return None
    return default_cmp(a, b, m)


def obligations(tier, seed):
    for t in ('1d', 'jtfs', '2d', '3d'):
        anchor = '%s.%s' % FRONTENDS[(t, 'sklearn')][:2]
        cls = Cls(t, 'sklearn')
        args = [atom(a, 'any') for a in FA[t]]
        x, xf = atom('x', 'array'), atom('xf', 'array')
        n = {'1d': 24, 'jtfs': 8, '2d': 10, '3d': 12}[t]
        yield Ob('C14/%s/params' % t, anchor, Term('skl.params' + t, [cls] + args), expected(t), models(t, 2 * n, 10 * n), cmp=cmp_params, note='get_params reports the arguments given')
        yield Ob('C14/%s/clone' % t, anchor, Term('skl.clone' + t, [cls, x] + args), Term('skl.orig' + t, [cls, x] + args), models(t, n, 10 * n), cmp=cmp_scat, note='rebuilding from get_params')
        yield Ob('C14/%s/rows' % t, anchor, Term('skl.est' + t, [cls, xf, x] + args), Term('skl.rows' + t, [cls, xf, x] + args), models(t, n, 10 * n, True), cmp=cmp_scat,
                 note='fit, predict and transform')
