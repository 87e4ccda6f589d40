"""C03: a transform call is pure and history-independent."""
import numpy as np

from ..lemma import Ob, Term, Cls, FWN, FRONTENDS, Arr, default_cmp
from ..models import A, ARGS, FAM, pick, rng_of, padded2d
from ..nodes import Node, Loop
from ..evalr import force, is_av

EXPLANATION = ('per frontend class: the value graph of the last call of a history (construct a second instance with other parameters, call it, call this instance on '
               'another input, ask for metadata and sizes, call twice) equals the graph of the same call on a fresh instance, and so do the input afterwards, the public '
               'parameters, the filters and the metadata; no call in the program slice of a result reads or writes randomness, time, environment or global settings; no '
               'in-place update of the marked phase has a target that may alias the input, a filter or any value that existed before the call')
TECHNIQUE = 'value-graph extraction by abstract interpretation with heap and view-alias tracking; effect and alias rules over the extracted events; random-interpretation value numbering'
NOTE = 'The graph is built once for symbolic parameters; equalities that are not graph identities are decided per finite model. functools caches are modelled as memo tables.'
FLOOR = 1
IMPURE = ('random.', 'numpy.random.', 'time.', 'datetime.', 'uuid.', 'os.environ', 'os.getenv', 'os.getpid', 'os.urandom', 'secrets.', 'torch.rand', 'torch.normal',
          'torch.bernoulli', 'tensorflow.random.', 'jax.random.')
NQ = {'1d': 18, 'jtfs': 6, '2d': 5, '3d': 8}
NT = {'1d': 120, 'jtfs': 50, '2d': 30, '3d': 80}


def watch(side):
    state = {'mark': None}
    for e in side.events:
        if e.kind == 'mark':
            state['mark'] = e.data
            state['at'] = e
            break
    after = set()
    seen = False
    for e in side.events:
        if e.kind == 'mark':
            seen = True
        elif seen:
            collect(e, after)

    from ..lemma import interp

    def wanted(e):
        if e.kind == 'effect':
            return e.data[0].startswith(IMPURE) or id(e) in after
        return e.kind == 'inplace' and id(e) in after

    def judge(ev, e, env):
        if e.kind == 'effect':
            return 'calls %s: the result may depend on, or disturb, state outside the object and the input' % e.data[0]
        if state['mark'] is None:
            return None
        target, how = e.data
        if not isinstance(target, Node):
            return None
        shared = state['mark'][2]
        for r in roots(interp(), target):
            if r in shared or (r.op == 'atom' and r.args[1] == 'array'):
                v = force(ev.eval(target, env))
                if is_av(v) and v.a.ndim > 0 and v.fw in ('np', 'torch'):
                    what = 'the input' if r.op == 'atom' else 'an array that existed before the call'
                    return 'in-place update (%s) of %s' % (how, what)
        return None
    return wanted, judge


def collect(e, out):
    out.add(id(e))
    if e.kind == 'loop':
        for x in e.data[1]:
            collect(x, out)


def roots(ip, n, depth=0, seen=None):
    """values n may share memory with"""
    seen = set() if seen is None else seen
    if not isinstance(n, Node) or depth > 40 or n in seen:
        return
    seen.add(n)
    r, _ = ip.view_chain_root(n)
    yield r
    if not isinstance(r, Node):
        return
    if r.op == 'ite':
        for x in r.args[1:]:
            yield from roots(ip, x, depth + 1, seen)
    elif r.op in ('setitem', 'setview', 'augbin', 'setattr'):
        x = r.args[1] if r.op == 'augbin' else r.args[0]
        yield from roots(ip, x, depth + 1, seen)
    elif r.op == 'mcall' and r.args[1] in ('contiguous', 'to', 'astype_', 'detach', 'cpu', 'numpy', 'squeeze', 'expand', 'type'):
        yield from roots(ip, r.args[0], depth + 1, seen)
    elif r.op == 'loopout':
        for a in r.args:
            if isinstance(a, Loop):
                for c in a.carries.values():
                    if len(r.args) > 1 and c[0] is r.args[1]:
                        yield from roots(ip, c[1], depth + 1, seen)


OTHER = {'1d': ['J', 'N', 'Q1', 'Q2', 'T', 'max_order'], 'jtfs': ['J', 'J_fr', 'Q1', 'T', 'Q_fr', 'F', 'format'], '2d': ['J', 'L', 'max_order'],
         '3d': ['J', 'L', 'sigma_0', 'rotation_covariant', 'max_order']}
ALT = {'1d': ['J_', 'N_', 'Q1_', 'Q2_', 'T_', 'max_order_'], 'jtfs': ['J_', 'J_fr_', 'Q1_', 'T_', 'Q_fr_', 'F_', 'format_'], '2d': ['J_', 'L_', 'max_order_'],
       '3d': ['J_', 'L_', 'sigma_', 'rot_', 'max_order_']}


WHAT = {'1d': ['T~', 'J', 'N', 'Q1', 'T~', 'Q2', 'T', 'max_order', 'N~'], 'jtfs': ['T~', 'J', 'J_fr', 'F~', 'T', 'Q_fr', 'F', 'format'], '2d': ['J', 'L', 'max_order'],
        '3d': ['J', 'L', 'sigma_0', 'rotation_covariant', 'sigma~', 'max_order']}


def other(t, m, i, r):
    """parameters of the second instance: exactly one differs"""
    o = {k: m[k] for k in OTHER[t]}
    k = WHAT[t][i % len(WHAT[t])]
    if k in ('T~', 'F~'):
        # another width between the same powers of two
        k = k[0]
        v = m[k]
        v = (2 ** m['J' if k == 'T' else 'J_fr'] if not isinstance(v, int) or v == 0 else v)
        top = m['N'] if k == 'T' else (m['J'] + 1) * m['Q1']
        near = [w for w in (v + 1, v - 1, v + 2) if 1 <= w <= top and w.bit_length() == v.bit_length() and w != v]
        o[k] = near[0] if near else None
        return dict(zip(ALT[t], (o[k] for k in OTHER[t])))
    if k == 'N~':
        o['N'] = m['N'] * 2 + 1
        return dict(zip(ALT[t], (o[k] for k in OTHER[t])))
    if k == 'sigma~':
        o['sigma_0'] = m['sigma_0'] + 0.01
        return dict(zip(ALT[t], (o[k] for k in OTHER[t])))
    v = m[k]
    if k == 'J':
        o[k] = v - 1 if v > 1 else v + (1 if t != '3d' and m['N'] >= 2 ** (v + 1) and (t == '1d' or m['M'] >= 2 ** (v + 1)) or t == '3d' else 0)
    elif k == 'N':
        o[k] = v + 1 + i % 3
    elif k == 'J_fr':
        o[k] = max(1, v - 1)
    elif k in ('Q1', 'L', 'Q_fr'):
        o[k] = v + 1 if k != 'Q1' or t != 'jtfs' else v
    elif k == 'Q2':
        o[k] = v + 1
    elif k == 'T':
        o[k] = None if v is not None else 0
    elif k == 'F':
        o[k] = None if v is not None else 0
    elif k == 'max_order':
        o[k] = 3 - v
    elif k == 'format':
        o[k] = 'time' if v == 'joint' else 'joint'
    elif k == 'sigma_0':
        o[k] = v + 0.5
    elif k == 'rotation_covariant':
        o[k] = not v
    return dict(zip(ALT[t], (o[k] for k in OTHER[t])))


def cmp(a, b, m):
    if a[0] == 'raise' and a[1] == 'AssertionError':
        return None                  # a filterbank of this or the other instance is refused at construction
    return default_cmp(a, b, m)


def small(t):
    def f(m):
        if t == '1d':
            return m['J'] <= 5 and m['Q1'] <= 4
        if t == '2d':
            return m['J'] <= 2 and m['L'] <= 3 and m['M'] * m['N'] <= 150
        if t == 'jtfs':
            return m['J'] <= 4
        return m['J'] <= 2 and m['L'] <= 3
    return f


def models(t, extra=None, shift=0):
    fam = FAM[t](NQ[t], NT[t], dtype='float32', batches=[(2,), (), (3,)], filt=lambda m: small(t)(m) and (extra is None or extra(m)))

    def g(tier, seed):
        for i, m in enumerate(fam(tier, seed)):
            r = rng_of(seed, i, 'hist')
            sh = {'1d': lambda: (m['N'],), 'jtfs': lambda: (m['N'],), '3d': lambda: (m['M'], m['N'], m['O']),
                  '2d': lambda: padded2d(m['M'], m['N'], m['J']) if m['pre_pad'] else (m['M'], m['N'])}[t]()
            o = other(t, m, i + shift, r)
            zs = {'1d': lambda: (o['N_'],), '2d': lambda: (m['M'], m['N'])}.get(t, lambda: sh)()
            b = [(), (2,), (1,)][i % 3]
            yield dict(m, y=Arr(b + sh, 'float32', 1000 + i), z=Arr(b + zs, 'float32', 2000 + i), **o)
    return g


def obligations(tier, seed):
    for (t, f) in FRONTENDS:
        anchor = '%s.%s' % FRONTENDS[(t, f)][:2]
        fw = FWN[f]
        note = '%s on %s: history-independent, inputs, parameters and filters unchanged' % (t, f)
        if f == 'keras':
            a = A('x', 'y', *(['J', 'N', 'Q1', 'Q2', 'T', 'max_order', 'oversampling'] if t == '1d' else ['J', 'M', 'N', 'L', 'max_order', 'pre_pad']))
            ex = (lambda m: m['T'] != 0 and m['stride'] is None) if t == '1d' else None
            mm = models(t, ex, len(f))

            def batch(tier, seed, mm=mm):
                for m in mm(tier, seed):
                    if len(m['x'].shape) > (1 if 'Q1' in m else 2) and len(m['y'].shape) > (1 if 'Q1' in m else 2):
                        yield m
            yield Ob('C03/%s/keras' % t, anchor, Term('hist.hk' + t, [Cls(t, f)] + a + A('J_' if t == '1d' else 'L_'), fw), Term('hist.nk' + t, [Cls(t, f)] + a, fw),
                     batch, watch=watch, cmp=cmp, note=note)
            continue
        a = A('x', 'y') + A('z') + A(*ARGS[t])
        yield Ob('C03/%s/%s' % (t, f), anchor, Term('hist.h' + t, [Cls(t, f)] + a + A(*ALT[t]), fw), Term('hist.n' + t, [Cls(t, f)] + a, fw), models(t, None, ord(f[0]) + 2 * len(f)),
                 watch=watch, cmp=cmp, note=note)
        if f == 'sklearn' and t == '1d':
            a = A('x', 'y', 'J', 'N', 'Q1', 'Q2', 'T', 'max_order')
            mm = models(t, lambda m: m['T'] != 0 and m['out_type'] == 'array')

            def rows(tier, seed, mm=mm):
                for i, m in enumerate(mm(tier, seed)):
                    yield dict(m, x=Arr((2, m['N']), 'float64', i), y=Arr((3, m['N']), 'float64', 50 + i), stride=None, oversampling=0)
            yield Ob('C03/1d/sklearn/predict', anchor, Term('hist.hs1d', [Cls(t, f)] + a + A('J_'), fw), Term('hist.ns1d', [Cls(t, f)] + a, fw), rows, watch=watch, cmp=cmp,
                     note='scikit-learn predict/transform history')
