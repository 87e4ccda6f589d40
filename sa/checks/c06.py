"""C06: array, list and dict outputs carry the same coefficients."""
import numpy as np

from ..lemma import Ob, Term, Cls, FWN, FRONTENDS
from ..evalr import close
from ..models import A, ARGS, FAM

EXPLANATION = ('for each frontend with a choice of container, the value graphs of the three containers (same symbolic parameters and input) are related: array = '
               'stack of the list along the channel axis, dict = list keyed by filter indices')
TECHNIQUE = 'value-graph extraction by abstract interpretation; relational comparison of the container variants by random-interpretation value numbering'
NOTE = ('Decided per finite model of the integer parameters (bounded families). In joint time-frequency scattering with format="joint", the array has no zeroth '
        'order and keeps the padded log-frequency rows (documented), so the list rows are compared with the leading rows of the array.')
FLOOR = 1
AX = {'1d': -2, '2d': -3}
NQ = {'1d': 40, 'jtfs': 20, '2d': 4}
NT = {'1d': 400, 'jtfs': 160, '2d': 40}


def check(t):
    def cmp(a, b, m):
        if a[0] == 'raise':
            if a[1] == 'AssertionError':
                return None          # filterbank refused: no container at all
            return 'raises %s at %s where a value is expected' % (a[1], a[2])
        L, D, Z = a[1]
        keys = [tuple(k) for k, _ in L]
        if len(set(keys)) != len(keys):
            return 'two list entries have the same filter indices'
        if D is not None:
            if set(D) != set(keys):
                return 'dict keys differ from list indices (%d vs %d)' % (len(D), len(keys))
            for k, c in L:
                r = close(D[tuple(k)], c, 1e-6, 'dict[%s]' % (k,))
                if r:
                    return 'dict vs list ' + r
        if Z is not None:
            z = np.asarray(Z.a)
            if t == 'jtfs' and m['format'] == 'joint':
                rest = L[1:]
                if z.shape[-3] != len(rest):
                    return 'array has %d channels, list %d entries' % (z.shape[-3], len(rest))
                for i, (k, c) in enumerate(rest):
                    c = np.asarray(c.a)
                    if c.shape[-2] > z.shape[-2] or c.shape[-1] != z.shape[-1]:
                        return 'list entry %s of shape %s does not fit array %s' % (k, c.shape, z.shape)
                    zz = z[..., i, :c.shape[-2], :]
                    if np.abs(zz - c).max() > 1e-6 * max(np.abs(c).max(), 1e-30):
                        return 'channel %d of the array differs from list entry %s' % (i, k)
                return None
            ax = AX.get(t, -2)
            try:
                s = np.stack([np.asarray(c.a) for _, c in L], axis=ax)
            except ValueError:
                return 'list coefficients have different shapes although an array is returned'
            from ..evalr import AV
            r = close(AV(s), Z, 1e-6, 'array')
            if r:
                return 'array vs stacked list ' + r
        return None
    return cmp


def obligations(tier, seed):
    for (t, f) in FRONTENDS:
        if f == 'keras' or t == '3d':
            continue
        a = A('x', *ARGS[t])
        yield Ob('C06/%s/%s' % (t, f), '%s.%s' % FRONTENDS[(t, f)][:2],
                 Term('drive.c' + t, [Cls(t, f)] + a, FWN[f]), lambda m: ('value', None), FAM[t](NQ[t], NT[t], dtype='float32'),
                 cmp=check(t), note='%s on %s: containers agree' % (t, f))
