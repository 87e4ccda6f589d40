"""C01: the value graph of every frontend equals the value graph of the NumPy frontend of the same transform."""
from ..lemma import Arr, Ob, Term, Cls, Obj, FWN, FRONTENDS
from ..extract import atom
from ..models import A, ARGS, FAM

NQ = {'1d': 60, 'jtfs': 30, '2d': 7, '3d': 40}
NT = {'1d': 700, 'jtfs': 300, '2d': 60, '3d': 300}
EXPLANATION = ('For each transform and each non-NumPy frontend, the value graph of cls(params).scattering(x) with symbolic params and x is '
               'extracted from the sources and compared with the graph of the NumPy frontend (hash-consed normal forms, then algebraic fingerprints '
               'in finite models); likewise every primitive of every backend against the NumPy primitive.')
TECHNIQUE = 'value-graph extraction by abstract interpretation; graph identity, then random-interpretation value numbering (Gulwani-Necula)'
NOTE = ('Sibling cross-check: value graph of every frontend vs NumPy frontend, of every backend primitive vs NumPy primitive, for symbolic parameters '
        'and inputs. Graph equality is decided by hash-consing where possible, else by algebraic fingerprints over families of finite models of the '
        'integer parameters (bounded: those models), so not a proof for all sizes. Library calls are interpreted by hand-written denotations.')
FLOOR = 1


CLASSES = {'numpy': 'NumpyBackend', 'torch': 'TorchBackend', 'tensorflow': 'TensorFlowBackend', 'jax': 'JaxBackend'}


def cases(t, tail):
    """name of the primitive -> (impl function or None for a direct call, reference, argument builders)
    an argument is ('r'|'c', shape) for a real or complex array, or a number"""
    r = lambda *s: ('r', s)
    c = lambda *s: ('c', s)
    d = int(t[0])
    if t == '1d':
        sp = [(2, 1, 8), (1, 1, 16), (3, 1, 32)]
        rows = [(2, 1, 4, 8), (1, 1, 8, 4), (2, 1, 6, 2)]
        wave = sp + rows
        yield 'rfft', None, 'rfft', [[r(*s)] for s in wave], [d]
        for p in ('cfft', 'ifft', 'irfft'):
            yield p, None, p, [[c(*s)] for s in wave], [d]
        yield 'subsample_fourier', None, 'sub', [[c(*s), k] for s in wave for k in (1, 2, 4) if s[-1] % k == 0], [d]
        yield 'modulus', None, 'modulus', [[c(*s)] for s in wave], []
        yield 'cdgmm', None, 'mulr', [[c(*s), r(s[-1])] for s in wave], []
        yield 'average_global', None, 'total', [[r(*s)] for s in wave], []
        yield 'pad', 'padmode', 'pad', [[('x', s), i, j, m] for s in sp for i, j in ((0, 0), (1, 0), (0, 3), (s[-1] - 1, s[-1] - 1), (2, 5)) for m in ('reflect', 'constant')], []
        yield 'unpad', None, 'cut', [[r(*s), i, j] for s in sp for i, j in ((0, s[-1]), (1, 3), (2, s[-1] - 1))], []
        yield 'pad_frequency', None, 'padrows', [[r(*s), p] for s in rows for p in (0, 1, 5)], []
        yield 'pad_frequency', None, 'padrowsc', [[c(*s), p] for s in rows for p in (0, 1, 5)], []
        yield 'swap_time_frequency', None, 'swap', [[k(*s)] for s in rows for k in (r, c)], []
        yield 'unpad_frequency', None, 'keeprows', [[r(2, 1, 12, 4), a, b] for a, b in ((5, 1), (8, 2), (7, 2), (9, 4), (3, 8))], []
        yield 'split_frequency_axis', None, 'split', [[r(2, 1, 5, 4)], [r(1, 1, 1, 3)]], []
        yield 'stack', 'stackd', 'rstackd', [[('x', s)] * 3 + [k] for s in [(2, 8), (2, 3, 8), (4, 2, 3, 8)] for k in (-2,)] + [[('x', s)] * 3 + [k] for s in [(2, 1, 8), (1, 1, 4)] for k in (2, -3)], None
        yield 'reshape_input', 'flat_in', 'rflat_in', [[('x', s)] for s in [(8,), (3, 8), (2, 3, 4)]], None
        yield 'reshape_output', 'flat_out', 'rflat_out', [[('x', (6, 1, 5)), 2, 3, 1], [('x', (6, 1, 4, 5)), 3, 2, 2]], None
    elif t == '2d':
        sp = [(2, 8, 8), (1, 8, 4), (3, 4, 12)]
        yield 'rfft', None, 'rfft', [[r(*s)] for s in sp], [d]
        for p in ('ifft', 'irfft'):
            yield p, None, p, [[c(*s)] for s in sp], [d]
        yield 'subsample_fourier', None, 'sub', [[c(*s), k] for s in sp for k in (1, 2, 4)], [d]
        yield 'modulus', None, 'modulus', [[c(*s)] for s in sp], []
        yield 'cdgmm', None, 'mulr', [[c(*s), r(*s[1:])] for s in sp], []
        yield 'unpad', None, 'inside', [[r(*s)] for s in sp], []
        yield 'stack', 'stack2', 'rstack2', [[('x', s)] * 3 for s in [(2, 4, 4), (4, 2, 6), (1, 2, 2)]], None
        yield 'Pad', 'padder', 'rpadder', [[('x', s), a, b, e, f] for s in [(2, 4, 6), (1, 5, 4), (3, 4, 4)] for a, b, e, f in ((0, 0, 0, 0), (1, 2, 0, 1), (s[1] - 1, s[1] - 1, 2, 2), (1, 1, s[2] - 1, s[2] - 1))], []
    else:
        sp = [(2, 4, 4, 4), (1, 4, 2, 6), (3, 2, 3, 4)]
        yield 'rfft', None, 'rfft', [[r(*s)] for s in sp], [d]
        yield 'ifft', None, 'ifft', [[c(*s)] for s in sp], [d]
        yield 'modulus', None, 'modulus', [[c(*s)] for s in sp], []
        yield 'cdgmm3d', None, 'mulc', [[c(*s), c(*s[1:])] for s in sp], []
        yield 'modulus_rotation', 'rot1', 'rrot1', [[c(*s)] for s in sp], []
        yield 'modulus_rotation', None, 'rrot2', [[c(*s), r(*s)] for s in sp], []
        yield 'compute_integrals', 'integrals', 'rintegrals', [[('x', s), p, q] for s in sp for p, q in ((1., 2.), (.5, 3.))], None
        yield 'stack', 'stack3', 'rstack3', [[('x', s)] * 4 for s in [(2, 3), (1, 2), (4, 1)]], None


def primitives():
    for f, cls in CLASSES.items():
        tail = f == 'torch'
        for t in ('1d', '2d', '3d'):
            mod = 'kymatio.scattering%s.backend.%s_backend' % (t, f)
            name = cls + t.upper()
            for i, (prim, impl, ref, rows, extra) in enumerate(cases(t, tail)):
                def models(tier, seed, rows=rows, tail=tail):
                    for rep in range(1 if tier == 'quick' else 8):
                        for j, row in enumerate(rows):
                            m = {}
                            for k, v in enumerate(row):
                                if isinstance(v, tuple):
                                    kind, s = v
                                    if kind == 'x' or not tail:
                                        v = Arr(s, 'complex64' if kind == 'c' else 'float32', 100 * rep + 10 * j + k)
                                    else:
                                        v = Arr(s + ((2,) if kind == 'c' else (1,)), 'float32', 100 * rep + 10 * j + k)
                                m['a%d' % k] = v
                            yield m
                n = len(rows[0])
                a = [atom('a%d' % k, 'any') for k in range(n)]
                obj = Obj(mod, name if prim == 'Pad' else name + '.' + prim)
                lhs = Term('prim.' + impl, [obj] + a, FWN[f]) if impl else Term('drive.prim%d' % n, [obj] + a, FWN[f])
                rhs = Term('prim.' + ref, a + ([] if extra is None else list(extra) + [tail]), 'np')
                yield Ob('C01/%s/%s/%s%s' % (t, f, prim, '' if i == 0 or ref[-1] not in 'c2' or prim in ('cdgmm', 'stack', 'cdgmm3d') else '/' + ref), '%s.%s.%s' % (mod, name, prim), lhs, rhs, models, internal=True, optional=True,
                         note='%s of %s is its documented closed form' % (prim, name))


def obligations(tier, seed):
    for (t, f) in FRONTENDS:
        if f == 'numpy' or f == 'keras':
            continue
        a = A('x', *ARGS[t])
        yield Ob('C01/%s/%s' % (t, f), '%s.%s' % FRONTENDS[(t, f)][:2],
                 Term('drive.r' + t, [Cls(t, f)] + a, FWN[f]), Term('drive.r' + t, [Cls(t, 'numpy')] + a, 'np'),
                 FAM[t](NQ[t], NT[t], dtype='float32'),
                 note='%s scattering on %s = scattering on NumPy' % (t, f))
    yield from primitives()
