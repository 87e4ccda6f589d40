"""C05: labels, metadata and sizes describe the coefficients they come with."""
import numpy as np

from ..lemma import Ob, Term, Cls, FWN, FRONTENDS
from ..evalr import is_av
from ..models import A, ARGS, FAM

EXPLANATION = ('for each frontend one value graph yields the coefficients, their labels, meta(), output_size(), the filter parameters and, from the reference '
               'term, the coefficient of every filter path; rows, labels and sizes must correspond')
TECHNIQUE = 'value-graph extraction by abstract interpretation; alignment of extracted metadata with extracted coefficients by random-interpretation value numbering'
NOTE = ('Decided per finite model of the integer parameters. A coefficient is called mislabelled when its value is that of another path of the reference; wrong values '
        'of correctly labelled coefficients are left to the cascade properties. The number of rows per channel of format="joint" is one more than the label range (pinned '
        'by the existing tests).')
FLOOR = 1
NQ = {'1d': 40, 'jtfs': 20, '2d': 14}
NT = {'1d': 400, 'jtfs': 160, '2d': 40}


def num(x):
    if is_av(x):
        return np.asarray(x.a)
    return x


def same(a, b):
    a, b = np.asarray(num(a), dtype=float), np.asarray(num(b), dtype=float)
    return a.shape == b.shape and bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-9 * np.maximum(1e-3, np.abs(b)))))


def flat(v):
    if isinstance(v, (list, tuple)):
        return tuple(flat(x) for x in v)
    v = num(v)
    return v.item() if isinstance(v, (np.ndarray, np.generic)) and np.ndim(v) == 0 else v


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.abs(a - b).max(initial=0) <= 1e-6 * max(np.abs(b).max(initial=0), 1e-30)


def aligned(d, keys, axis):
    """every coefficient carries the key of the path that produced it"""
    ref = dict((flat(k), num(c)) for k, c in d['ref'])
    coef = d['coef']
    if isinstance(coef, dict):
        have = {flat(k): num(c) for k, c in coef.items()}
        if sorted(have) != sorted(keys):
            return 'dict keys differ from meta keys'
        items = list(have.items())
    else:
        if isinstance(coef, list):
            cs = [num(c) for c in coef]
        else:
            z = num(coef)
            cs = [np.take(z, i, axis=axis) for i in range(z.shape[axis])]
        if len(cs) != len(keys):
            return '%d coefficients but %d labels' % (len(cs), len(keys))
        items = list(zip(keys, cs))
    if len(set(keys)) != len(keys):
        return 'two channels have the same label'
    for k, c in items:
        if k in ref and near(c, ref[k]):
            continue
        for k2, r in ref.items():
            if k2 != k and near(c, r) and np.abs(r).max(initial=0) > 0:
                return 'channel labelled %s holds the coefficient of %s' % (k, k2)
        if k not in ref:
            return 'label %s names no path' % (k,)
    return None


def head(a):
    if a[0] == 'raise':
        return None if a[1] == 'AssertionError' else 'raises %s at %s where a value is expected' % (a[1], a[2])


def check1d(a, b, m):
    if a[0] == 'raise':
        return head(a)
    d = a[1]
    mo = m['max_order']
    keys = [flat(k) for k in d['key']]
    r = aligned(d, keys, -2)
    if r:
        return r
    if d['labels'] is not None:
        for i, l in enumerate(d['labels']):
            n = flat(l['n'])
            if n != keys[i]:
                return 'entry %d has n=%s but meta key %s' % (i, n, keys[i])
            if flat(l['order']) != len(n):
                return 'entry %s has order %s' % (n, l['order'])
            if flat(l['j']) != tuple(flat(d['psi'][o][x][2]) for o, x in enumerate(n)):
                return 'entry %s has j=%s' % (n, flat(l['j']))
    C = len(keys)
    if not same(d['order'], [len(k) for k in keys]):
        return 'meta order %s' % (num(d['order']),)
    want = np.full((C, mo), np.nan)
    for i, k in enumerate(keys):
        want[i, :len(k)] = k
    if not same(d['n'], want):
        return 'meta n differs from keys'
    for q, name in enumerate(('xi', 'sigma', 'j')):
        w = np.full((C, mo), np.nan)
        for i, k in enumerate(keys):
            for o, x in enumerate(k):
                w[i, o] = float(flat(d['psi'][o][x][q]))
        if not same(d[name], w):
            return 'meta %s differs from the %s of the filters named by the keys' % (name, name)
    if flat(d['size']) != C:
        return 'output_size() is %s for %d coefficients' % (d['size'], C)
    counts = tuple(sum(len(k) == o for k in keys) for o in range(mo + 1))
    if flat(d['detail']) != tuple(c for c in counts if c) and flat(d['detail']) != counts:
        return 'output_size(detail=True) is %s, orders are %s' % (d['detail'], counts)


def checkjtfs(a, b, m):
    if a[0] == 'raise':
        return head(a)
    d = a[1]
    joint = m['format'] == 'joint'
    keys = [flat(k) for k in d['key']]
    r = aligned(d, keys, -3 if joint else -2)
    if r:
        return r
    C = len(keys)
    span = {flat(k): flat(v) for k, v in d['span'].items()}
    order, nfr, n2 = [], [], []
    for k in keys:
        o = 0 if not k else (len(k) - (0 if joint else 1))
        order.append(o)
        nfr.append(k[-1] if k else np.nan)
        n2.append(k[-2] if o == 2 else np.nan)
    if not same(d['order'], order):
        return 'meta order differs from keys'
    if not same(d['n_fr'], nfr):
        return 'meta n_fr differs from keys'
    n = num(d['n'])
    if n.shape != (C, 2) or not same(n[:, 1].astype(float), n2):
        return 'meta n[:, 1] differs from keys'
    n1 = n[:, 0]
    for i, k in enumerate(keys):
        v = n1[i]
        if joint and k:
            v = list(v) if isinstance(v, (range, list, tuple, np.ndarray)) else v
            if v != list(range(0, *span[k])) and k in span:
                return 'meta n1 of %s is %s, not range(0, %d, %d)' % (k, str(v)[:60], span[k][0], span[k][1])
        elif k and float(v) != k[0]:
            return 'meta n1 of %s is %s' % (k, v)
        elif not k and not np.isnan(float(v)):
            return 'meta n1 of the zeroth order is %s' % v
    for q, name in enumerate(('xi', 'sigma', 'j')):
        w = np.full((C, 2), np.nan)
        wf = np.full((C,), np.nan)
        for i, k in enumerate(keys):
            if k and not joint:
                w[i, 0] = float(flat(d['psi'][0][k[0]][q]))
            if order[i] == 2:
                w[i, 1] = float(flat(d['psi'][1][int(n2[i])][q]))
            if k:
                wf[i] = float(flat(d['psi_fr'][k[-1]][q]))
        if not same(d[name], w):
            return 'meta %s differs from the %s of the filters named by the keys' % (name, name)
        if not same(d[name + '_fr'], wf):
            return 'meta %s_fr differs from the %s of the filters named by the keys' % (name, name)
        if name == 'xi' and not same(d['spin'], np.sign(wf)):
            return 'meta spin is not the sign of xi_fr'
    if flat(d['size']) != C:
        return 'output_size() is %s for %d coefficients' % (d['size'], C)
    if d['labels'] is not None:
        for i, l in enumerate(d['labels']):
            k = flat(l['n'])
            if k != keys[i]:
                return 'entry %d has n=%s but meta key %s' % (i, k, keys[i])
            if flat(l.get('order', order[i])) != order[i]:
                return 'entry %s has order %s' % (k, l['order'])
            if k:
                f = d['psi_fr'][k[-1]]
                if flat(l['n_fr']) != (k[-1],) or flat(l['j_fr']) != (flat(f[2]),) or flat(l['spin']) != np.sign(flat(f[0])):
                    return 'entry %s has n_fr=%s j_fr=%s spin=%s' % (k, l['n_fr'], l['j_fr'], l['spin'])
                if order[i] == 2 and flat(l['j'])[-1] != flat(d['psi'][1][int(n2[i])][2]):
                    return 'entry %s has j=%s' % (k, l['j'])
                if joint and k in span and (flat(l['n1_max']), flat(l['n1_stride'])) != span[k]:
                    return 'entry %s has n1_max=%s n1_stride=%s instead of %s' % (k, l['n1_max'], l['n1_stride'], span[k])


def check2d(a, b, m):
    if a[0] == 'raise':
        return head(a)
    d = a[1]
    ref = [flat(k) for k, _ in d['ref']]
    if d['labels'] is None:
        keys = ref
    else:
        keys = [flat(l['n']) for l in d['labels']]
    r = aligned(d, keys, -3)
    if r:
        return r
    for l in d['labels'] or ():
        n = flat(l['n'])
        f = [flat(d['psi'][x]) for x in n]
        if flat(l['j']) != tuple(x[0] for x in f) or flat(l['theta']) != tuple(x[1] for x in f):
            return 'entry %s has j=%s theta=%s' % (n, flat(l['j']), flat(l['theta']))
    if m['L'] and [flat(p) for p in d['psi']] and len(keys) != len(ref):
        return '%d entries for %d paths' % (len(keys), len(ref))


CHK = {'1d': ('drive.m1d', check1d), 'jtfs': ('drive.mjtfs', checkjtfs), '2d': ('drive.mlist2d', check2d)}


def obligations(tier, seed):
    for (t, f) in FRONTENDS:
        if f == 'keras' or t == '3d':
            continue
        fn, cmp = CHK[t]
        yield Ob('C05/%s/%s' % (t, f), '%s.%s' % FRONTENDS[(t, f)][:2],
                 Term(fn, [Cls(t, f)] + A('x', *ARGS[t]), FWN[f]), lambda m: ('value', None), FAM[t](NQ[t], NT[t], dtype='float32', batches=[(), (2,)],
                                     **({'filt': lambda m: m['J'] <= 2 and m['L'] <= 3} if t == '2d' and tier == 'quick' else {})),
                 cmp=cmp, note='labels, metadata and sizes of %s on %s describe its coefficients' % (t, f))
