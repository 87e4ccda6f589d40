"""C04: batch elements are transformed independently and leading axes are preserved."""
import itertools
import numpy as np

from ..lemma import Ob, Term, Cls, FWN, FRONTENDS, Part
from ..evalr import AV, is_av
from ..models import A, ARGS, FAM

EXPLANATION = ('relational obligation on the value graph of every frontend: its denotation on a batch equals the stack of its denotations on the single '
               'elements, for leading axes of every kind (none, one, several, singleton), in each output type')
TECHNIQUE = 'value-graph extraction by abstract interpretation; relational comparison of two instances of one graph by random-interpretation value numbering'
NOTE = ('Decided per finite model (bounded families of parameters and of batch shapes). Independence is decided on the extracted value graph, in which '
        'every array operation has an algebraic denotation; rounding is abstracted away.')
FLOOR = 1
ND = {'1d': 1, 'jtfs': 1, '2d': 2, '3d': 3}
NQ = {'1d': 24, 'jtfs': 10, '2d': 6, '3d': 16}
NT = {'1d': 300, 'jtfs': 120, '2d': 30, '3d': 200}
BB = [(2,), (3,), (2, 3), (1,), (2, 1, 2), (4,), (1, 2), ()]


def stack(vals, batch):
    v = vals[0]
    if is_av(v):
        a = np.stack([np.asarray(x.a) for x in vals]).reshape(tuple(batch) + tuple(v.a.shape))
        return AV(a, v.dt, v.fw)
    if isinstance(v, dict):
        return {k: (stack([x[k] for x in vals], batch) if k in COEF or not isinstance(k, str) else v[k]) for k in v}
    if isinstance(v, (list, tuple)):
        return type(v)(stack([x[i] for x in vals], batch) for i in range(len(v)))
    return v


COEF = ('coef',)


def single(m, nd):
    x = m['x']
    batch = x.shape[:len(x.shape) - nd]
    for ix in itertools.product(*[range(n) for n in batch]):
        yield dict(m, x=Part(x, ix)), batch


def rel(nd):
    def f(m, run):
        vals = []
        batch = ()
        for mm, batch in single(m, nd):
            o = run(mm)
            if o[0] == 'raise':
                return o
            vals.append(o[1])
        return ('value', stack(vals, batch))
    return f


def obligations(tier, seed):
    for (t, f) in FRONTENDS:
        if f == 'keras':
            continue
        a = A('x', *ARGS[t])
        yield Ob('C04/%s/%s' % (t, f), '%s.%s' % FRONTENDS[(t, f)][:2],
                 Term('drive.r' + t, [Cls(t, f)] + a, FWN[f]), None, FAM[t](NQ[t], NT[t], dtype='float32', batches=BB, filt=(lambda m: m['J'] <= 2 and m['L'] <= 3) if t == '2d' else None),
                 rel=rel(ND[t]), note='%s on %s maps a batch to the stack of the images of its elements' % (t, f))
