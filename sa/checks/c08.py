"""C08: gradients flow from output to input on autodiff frontends."""
import numpy as np

from ..lemma import Ob, Term, Cls, Obj, Arr, FRONTENDS, FWN, evaluate
from ..evalr import AV, is_av, close, force
from ..models import A, ARGS, FAM
from .c03 import small

EXPLANATION = ('per autodiff frontend: every value that leaves gradient tracking (detach, .data, item, numpy conversion, stop_gradient, new variable, no_grad region, '
               'library function of another framework) is perturbed and no coefficient may notice, and every coefficient is a tensor of the framework; on the PyTorch '
               '1D/2D/time-frequency transforms the custom backward of the modulus is compared with the gradient of the complex modulus, zero at zero, and no operation '
               'outside it may be differentiated at a singular point for a zero input')
TECHNIQUE = 'value-graph extraction by abstract interpretation; taint of gradient-cutting operations by value numbering; extracted backward formula against the closed form; rule on singular operations'
NOTE = 'Decided per finite model of the parameters. Derivatives of library operations are those of the frameworks (trusted); the 3D modulus at zero is outside the property.'
FLOOR = 1
NQ = {'1d': 20, 'jtfs': 8, '2d': 8, '3d': 10}
NT = {'1d': 200, 'jtfs': 80, '2d': 40, '3d': 120}


def leaves(v):
    v = force(v)
    if is_av(v):
        yield v
    elif isinstance(v, (list, tuple)):
        for y in v:
            yield from leaves(y)
    elif isinstance(v, dict):
        for y in v.values():
            yield from leaves(y)


def after(side, ev, out, m):
    if out[0] == 'raise':
        return None
    for v in leaves(out[1]):
        if v.fw != side.fw and v.a.ndim > 0:
            return 'a coefficient is not a %s tensor but %s' % (side.fw, v.fw), []
    if ev.cuts:
        ref = evaluate(side, dict(m, gradcut=False))
        msg = None if ref[0] == 'raise' else close(out[1], ref[1], 1e-6)
        if msg:
            return ('a coefficient depends on the input through values outside gradient tracking: ' + '; '.join('%s at %s' % (c[1], c[2]) for c in ev.cuts[:3]),
                    [c[2] for c in ev.cuts[:4]])


def forwards(side):
    q = set()

    def go(evs):
        for e in evs:
            if e.kind == 'loop':
                go(e.data[1])
            elif e.kind == 'autograd':
                q.add(str(e.data[0]).split('.')[-1] + '.forward')
    go(side.events)
    return q


def singular(side, ev, out, m):
    q = forwards(side)
    bad = [(s, l) for s, l in ev.singular if l is None or not any(str(l[2]).endswith(f) for f in q)]
    if bad:
        return ('the gradient of %s at zero is not finite' % bad[0][0], [str(l) for _, l in bad[:3]])


def modulus_grad(m):
    z, g = m['x'].make('torch'), m['y'].make('torch')
    mod = np.sqrt(np.sum(z.a ** 2, axis=-1, keepdims=True))
    r = np.where(mod > 0, z.a * g.a / np.where(mod > 0, mod, 1), 0.0)
    return ('value', AV(r, z.dt, 'torch'))


def cmpg(a, b, m):
    if a[0] == 'raise':
        return 'raises %s at %s' % (a[1], a[2])
    if a[1] is None:
        return None
    v = a[1]
    if isinstance(v, (tuple, list)) and len(v) >= 1:
        v = force(v[0])
    return close(v, b[1], 1e-6)


def zmodels(tier, seed):
    n = 6 if tier == 'quick' else 40
    shapes = [(5, 2), (2, 4, 2), (3, 2, 4, 2), (1, 1, 3, 4, 2), (2,), (1, 2)]
    for i in range(n):
        sh = shapes[i % len(shapes)]
        yield dict(x=Arr(sh, 'float32', i, ['normal', 'zero', 'somezero'][i % 3]), y=Arr(sh[:-1] + (1,) if len(sh) > 1 else (1,), 'float32', 100 + i))


def obligations(tier, seed):
    for t in ('1d', 'jtfs', '2d', '3d'):
        for fr in ('torch', 'tensorflow', 'jax'):
            anchor = '%s.%s' % FRONTENDS[(t, fr)][:2]
            a = A('x', *ARGS[t])
            out = {} if t == '3d' else {'out': 'list'}
            fam = FAM[t](NQ[t], NT[t], dtype='float32', batches=[(), (2,)], filt=small(t))
            term = Term('grad.g' + t, [Cls(t, fr)] + a, FWN[fr])

            def cut(tier, seed, fam=fam):
                for m in fam(tier, seed):
                    yield dict(m, gradcut=True)
            yield Ob('C08/%s/%s/tracked' % (t, fr), anchor, term, lambda m: None, cut, cmp=lambda a, b, m: None, after=after,
                     note='coefficients of %s on %s depend on the input through tracked operations only' % (t, fr))
            if fr == 'torch' and t != '3d':
                fam0 = FAM[t](NQ[t] // 2, NT[t] // 2, dtype='float32', batches=[(), (2,)], filt=small(t), dist='zero')

                def zero(tier, seed, fam=fam0):
                    for m in fam(tier, seed):
                        yield dict(m, atzero=True)
                yield Ob('C08/%s/%s/zero' % (t, fr), anchor, term, lambda m: None, zero, cmp=lambda a, b, m: None, after=singular,
                         note='no operation of %s is differentiated at a singular point for a zero input' % t)
    for t, cls in (('1d', 'TorchBackend1D'), ('2d', 'TorchBackend2D')):
        mod = 'kymatio.scattering%s.backend.torch_backend' % t
        yield Ob('C08/%s/torch/modulus' % t, '%s.%s.modulus' % (mod, cls), Term('grad.backward', [Obj(mod, cls + '.modulus')] + A('x', 'y'), 'torch'), modulus_grad, zmodels,
                 cmp=cmpg, note='the backward pass of the modulus is x g / |x|, zero at zero')
