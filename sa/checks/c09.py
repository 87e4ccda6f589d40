"""C09: malformed inputs are rejected before any computation."""
from ..lemma import Ob, Term, Cls, Obj, Arr, FRONTENDS, FWN
from ..models import A, ARGS, FAM, padded2d
from .c03 import small

EXPLANATION = ('per frontend class and entry point (scattering and call): inputs with too few axes, a wrong signal shape on either axis, None, arrays of another framework and '
               'non-contiguous tensors must raise the documented exception class, well-formed ones must not raise; per backend primitive: arrays of the wrong kind, layout, shape '
               'or dtype must raise the documented exception class, well-formed ones must not')
TECHNIQUE = 'value-graph extraction by abstract interpretation of the sources with guarded raise events; reachability of the documented raise decided per malformed-input class'
NOTE = 'Decided per finite model. Exceptions of the frameworks themselves follow the denotations in sa/libmodel.py.'
FLOOR = 1
BAD = {'AttributeError', 'NameError', 'KeyError', 'UnboundLocalError', 'ImportError', 'ZeroDivisionError'}


def expected(m):
    return ('expect', m['expect'])


def cmp(a, b, m):
    want = m['expect']
    if want is None:
        if a[0] == 'raise':
            if a[1] == 'AssertionError' and m.get('refusal'):
                return None
            return 'a well-formed input is rejected: %s at %s %s' % (a[1], a[2], a[3])
        return None
    if a[0] != 'raise':
        return '%s is accepted instead of raising %s' % (m['why'], ' or '.join(want))
    if want == ('any',):
        return None
    if a[1] not in want and not (a[1] == 'AssertionError' and m.get('refusal')):
        return '%s raises %s at %s instead of %s' % (m['why'], a[1], a[2], ' or '.join(want))
    if m.get('early') and 'cdgmm' in str(a[2]):
        return '%s is not rejected before the computation: it gets as far as the product with the filters, at %s' % (m['why'], a[2])


def sig(t, m):
    if t in ('1d', 'jtfs'):
        return (m['N'],)
    if t == '2d':
        return padded2d(m['M'], m['N'], m['J']) if m['pre_pad'] else (m['M'], m['N'])
    return (m['M'], m['N'], m['O'])


LAYOUTS = [(True, 'every second row'), ('crop', 'rows cut out of longer rows'), ('batch', 'every second element of a batch'), ('swap', 'transposed storage')]


def layouts(sh, arr, i):
    return [(x, ('RuntimeError',), 'a non-contiguous tensor (%s)' % why) for x, why in ((arr(sh, strided=k), why) for k, why in LAYOUTS)
            if not x.make('torch').a.flags['C_CONTIGUOUS']]


def malformed(t, f, entry, m, i):
    """(x, expected exception classes, description)"""
    s = sig(t, m)
    d = len(s)
    dt = 'float32'

    def arr(sh, **kw):
        return Arr(sh, dt, i, **kw)
    out = []
    if d == 1:
        out.append((arr(()), ('ValueError',), 'a 0-d input'))
        if f == 'torch' and entry == 'call':
            out.append((None, ('TypeError',), 'None'))
            out += layouts((2,) + s, arr, i)
        wrong = ('RuntimeError', 'ValueError')
        for n in (s[0] + 1, s[0] - 1, 2 * s[0], 1, max(1, s[0] // 2)):
            if n != s[0] and n > 0:
                out.append((arr(((2,) if i % 2 else ()) + (n,)), wrong, 'a signal of length %d instead of %d' % (n, s[0])))
        return out
    for k in range(d):
        out.append((arr(s[:k]), ('RuntimeError',), 'an input with %d axes' % k))
    for k in range(d):
        for e in (1, -1):
            sh = list(s)
            sh[k] += e
            if sh[k] < 1:
                continue
            out.append((arr(((2,) if i % 2 else ()) + tuple(sh)), ('RuntimeError',), 'a signal of shape %s instead of %s' % (tuple(sh), s)))
    if len(set(s)) > 1:
        out.append((arr(s[::-1] if s[::-1] != s else s[1:] + s[:1]), ('RuntimeError',), 'a transposed signal'))
    out.append((arr(s + (3,)), ('RuntimeError',), 'a signal followed by a channel axis'))
    if t == '2d' and m['pre_pad']:
        out.append((arr((m['M'], m['N'])), ('RuntimeError',), 'an unpadded signal with pre_pad'))
    if f in ('numpy', 'torch', 'tensorflow', 'sklearn') and not (f == 'tensorflow' and entry == 'call'):
        out.append((None, ('TypeError', 'ValueError') if f == 'tensorflow' else ('TypeError',), 'None'))
    if f in ('numpy', 'sklearn'):
        out.append((arr(s, fw='torch'), ('TypeError',), 'a PyTorch tensor'))
        out.append((1.5, ('TypeError',), 'a number'))
    if f == 'torch' and entry == 'scattering':
        out.append((arr(s, fw='np'), ('TypeError',), 'a NumPy array'))
    if f == 'torch':
        if t == '2d' or entry == 'call':
            out += layouts((2,) + s, arr, i)
    return out


def models(t, f, entry):
    def gen(tier, seed):
        n = 4 if tier == 'quick' else 40
        kw = {'pre': None} if t == '2d' else {}
        i = 0
        for m in FAM[t](n * 2, n * 2, dtype='float32', batches=[(), (2,), (1, 2)], filt=small(t), **kw)(tier, seed):
            i += 1
            if t == '3d' and m['method'] != 'integral':
                continue
            if t == '2d':
                # alternate padded and unpadded
                m = dict(m, pre_pad=i % 2 == 0)
                m['x'] = Arr(((2,) if i % 3 else ()) + sig(t, m), 'float32', i)
            m['refusal'] = True
            yield dict(m, expect=None, why='a well-formed input')
            bad = malformed(t, f, entry, m, i)
            for x, want, why in bad:
                yield dict(m, x=x, expect=want, why=why, early=t in ('2d', '3d'))
    return gen


PRIM = {
    '1d': {'real': ['rfft', 'average_global'], 'complex': ['cfft', 'ifft', 'irfft', 'subsample_fourier']},
    '2d': {'real': ['rfft'], 'complex': ['ifft', 'irfft', 'subsample_fourier']},
    '3d': {'real': ['rfft'], 'complex': ['ifft']},
}
CLS = {'numpy': 'NumpyBackend', 'torch': 'TorchBackend', 'tensorflow': 'TensorFlowBackend', 'jax': 'JaxBackend'}
SHAPES = {'1d': [(1, 1, 8), (2, 1, 16), (3, 4)], '2d': [(1, 4, 8), (3, 4, 4), (2, 8, 8)], '3d': [(4, 4, 4), (2, 4, 6, 4), (1, 3, 2, 4)]}


def prim_models(t, f, kind, prim):
    def gen(tier, seed):
        torch = f == 'torch'
        i = 0
        reps = 1 if tier == 'quick' else 6
        for sh in SHAPES[t] * reps:
            i += 1
            for dt in ('float32', 'float64'):
                cdt = {'float32': 'complex64', 'float64': 'complex128'}[dt]
                re = Arr(sh + (1,), dt, i) if torch else Arr(sh, dt, i)
                co = Arr(sh + (2,), dt, i) if torch else Arr(sh, cdt, i)
                k = dict(y=2) if prim == 'subsample_fourier' else {}
                good, bad = (re, co) if kind == 'real' else (co, re)
                yield dict(x=good, expect=None, why='a well-formed input', **k)
                yield dict(x=bad, expect=('TypeError',), why='a %s array' % ('complex' if kind == 'real' else 'real'), **k)
                if torch:
                    yield dict(x=Arr(sh + (3,), dt, i), expect=('TypeError',), why='a tensor whose last axis has size 3', **k)
                    if not (prim == 'subsample_fourier' and t == '1d'):
                        for x, want, why in layouts(good.shape, lambda s, **kw: Arr(s, dt, i, **kw), i):
                            yield dict(x=x, expect=want, why=why, **k)
    return gen


def cdgmm_models(t, f):
    torch = f == 'torch'

    def gen(tier, seed):
        i = 0
        for sh, fs in [((1, 1, 8), (8,)), ((2, 3, 4), (4,))] if t == '1d' else [((3, 4, 5), (4, 5)), ((2, 3, 3), (3, 3))] if t == '2d' else [((2, 4, 3, 5), (4, 3, 5)), ((4, 3, 5), (4, 3, 5))]:
            i += 1

            def c(s, dt='float32', **k):
                return Arr(s + (2,), dt, i, **k) if torch else Arr(s, {'float32': 'complex64', 'float64': 'complex128'}[dt], i, **k)

            def r(s, dt='float32', **k):
                return Arr(s + (1,), dt, i, **k) if torch else Arr(s, dt, i, **k)
            ok = dict(expect=None, why='a well-formed input')
            yield dict(ok, x=c(sh), y=c(fs))
            if t != '3d' or f == 'numpy' or f == 'jax':
                yield dict(ok, x=c(sh), y=r(fs))
            ty, rt = ('TypeError',), ('RuntimeError',)
            if t == '3d' and f == 'tensorflow':
                yield dict(x=c(sh), y=c(fs[1:]), expect=rt, why='a filter with too few axes')
                # the sizes are compared by TensorFlow itself
                rt = ('RuntimeError', 'ValueError', 'InvalidArgumentError')
            other = fs[:-1] + (fs[-1] + 1,)
            yield dict(x=c(sh), y=c(other), expect=rt, why='a filter of another size')
            if len(fs) > 1:
                other = (fs[0] + 1,) + fs[1:]
                yield dict(x=c(sh), y=c(other), expect=rt, why='a filter of another size')
            if not (t == '3d' and f == 'tensorflow'):
                yield dict(x=r(sh), y=r(fs), expect=ty if not (t == '3d' and torch) else ty + rt, why='a real first operand')
            if torch:
                yield dict(x=c(sh), y=Arr(fs + (3,), 'float32', i), expect=ty, why='a filter whose last axis has size 3')
                yield dict(x=c(sh), y=c(fs, 'float64'), expect=ty, why='a filter of another dtype')
                for x, want, why in layouts(sh, c, i):
                    yield dict(x=x, y=c(fs), expect=rt, why='an input that is ' + why)
                for y, want, why in layouts(fs, c, i):
                    yield dict(x=c(sh), y=y, expect=rt, why='a filter that is ' + why)
            elif not (t == '3d' and f == 'tensorflow'):
                yield dict(x=c(sh), y=Arr(fs, 'int64', i), expect=ty, why='an integer filter')
    return gen


def pad_models(f):
    def gen(tier, seed):
        for n in (3, 5, 8):
            x = Arr((2, 1, n), 'float32', n)
            yield dict(x=x, y=n - 1, z=n - 1, expect=None, why='a well-formed input')
            yield dict(x=x, y=0, z=1, expect=None, why='a well-formed input')
            for y, z in ((n, 0), (0, n), (n + 2, 1), (1, n + 1)):
                yield dict(x=x, y=y, z=z, expect=('ValueError',), why='padding %d and %d samples of a signal of length %d' % (y, z, n))
    return gen


def obligations(tier, seed):
    for (t, f) in FRONTENDS:
        if f == 'keras':
            continue
        anchor = '%s.%s' % FRONTENDS[(t, f)][:2]
        for entry in ('scattering', 'call'):
            if entry == 'call' and f in ('sklearn',):
                continue
            from ..extract import atom
            args = [atom('x', 'any')] + A(*ARGS[t])
            yield Ob('C09/%s/%s/%s' % (t, f, entry), anchor, Term('drive.%s%s' % ({'scattering': 'in', 'call': 'call'}[entry], t), [Cls(t, f)] + args, FWN[f]),
                     expected, models(t, f, entry), cmp=cmp, note='malformed inputs of %s on %s' % (t, f))
    for t in ('1d', '2d', '3d'):
        for f, c in CLS.items():
            mod = 'kymatio.scattering%s.backend.%s_backend' % (t, f)
            cls = c + t.upper()
            fw = FWN[f]
            for kind, prims in PRIM[t].items():
                for p in prims:
                    k = p == 'subsample_fourier'
                    yield Ob('C09/%s/%s/%s' % (t, f, p), '%s.%s.%s' % (mod, cls, p), Term('drive.prim2' if k else 'drive.prim1', [Obj(mod, cls + '.' + p)] + A('x') + ([2] if k else []), fw),
                             expected, prim_models(t, f, kind, p), cmp=cmp, note='operands of %s.%s' % (cls, p))
            p = 'cdgmm3d' if t == '3d' else 'cdgmm'
            yield Ob('C09/%s/%s/%s' % (t, f, p), '%s.%s.%s' % (mod, cls, p), Term('drive.prim2', [Obj(mod, cls + '.' + p)] + A('x', 'y'), fw), expected, cdgmm_models(t, f), cmp=cmp,
                     note='operands of %s.%s' % (cls, p))
            if f == 'torch' and t != '3d':
                yield Ob('C09/%s/%s/modulus' % (t, f), '%s.%s.modulus' % (mod, cls), Term('drive.prim1', [Obj(mod, cls + '.modulus')] + A('x'), fw), expected,
                         prim_models(t, f, 'complex', 'modulus'), cmp=cmp, note='operands of %s.modulus' % cls)
            if t == '1d':
                from ..extract import atom
                yield Ob('C09/%s/%s/pad' % (t, f), '%s.%s.pad' % (mod, cls), Term('drive.prim3', [Obj(mod, cls + '.pad'), A('x')[0], atom('y', 'any'), atom('z', 'any')], fw), expected, pad_models(f),
                         cmp=cmp, note='padding widths of %s.pad' % cls)
