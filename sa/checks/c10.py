"""C10: illegal configurations are rejected at construction or first use; legal ones never are."""
import numpy as np

from ..extract import atom
from ..lemma import Ob, Term, Cls, Obj, Arr, FRONTENDS, FWN
from ..models import FAM, padded2d
from .c03 import small
from .c09 import cmp as base_cmp, expected

EXPLANATION = ('per frontend class: every documented class of illegal configuration (shape, Q, T, stride, oversampling, out_type, array output without averaging, Q_fr, F, stride_fr, format, '
               '2D scale, averaging method, backend and frontend names) must raise the documented exception class on construction or on the first call, and the whole family of legal '
               'configurations must not raise')
TECHNIQUE = 'value-graph extraction by abstract interpretation with guarded raise events; reachability of the documented raise decided per class of configuration'
NOTE = 'Decided per finite model of the symbolic parameters. A filterbank refused for aliasing (AssertionError) is a legitimate outcome and is left to C19.'
FLOOR = 1
V = ('ValueError',)
Q_ = ('ValueError', 'TypeError')
R = ('RuntimeError',)
FA = {'1d': ['J', 'shape', 'Q', 'T', 'stride', 'max_order', 'oversampling', 'out_type'],
      'jtfs': ['J', 'J_fr', 'shape', 'Q', 'T', 'stride', 'Q_fr', 'F', 'stride_fr', 'out_type', 'format'],
      '2d': ['J', 'shape', 'L', 'max_order', 'pre_pad', 'out_type'],
      '3d': ['J', 'shape', 'L', 'sigma_0', 'max_order', 'rotation_covariant', 'method', 'points', 'integral_powers']}


def cmp(a, b, m):
    if m['expect'] is not None and a[0] == 'raise' and a[1] not in m['expect'] and a[1] == 'AssertionError' and m.get('refusal'):
        return None
    return base_cmp(a, b, m)


def bad1d(m, f, i):
    """illegal variations of the legal model m"""
    N, T = m['shape'][0], m['T']
    local = T not in (0, 'global')
    tt = 2 ** m['J'] if T is None else T
    out = []

    def b(why, want, **k):
        out.append(dict(m, expect=want, why=why, **k))
    if f != 'keras':
        b('a 2-tuple as shape', V, shape=(N, N))
        b('a 3-tuple as shape', V, shape=(N, 1, 1))
        b('a list as shape', V, shape=[N])
        b('a float as shape', V, shape=float(N))
        b('a string as shape', Q_, shape='N')
    b('Q = 0', V, Q=0)
    b('Q = (0, 1)', V, Q=(0, 1))
    b('Q = (1, 0)', V, Q=(m['Q'][0], 0))
    b('Q = -1', V, Q=-1)
    b('Q = 0.5', V, Q=0.5)
    b('three values of Q', ('NotImplementedError',), Q=(1, 1, 1))
    b('a list as Q', V, Q=[1, 1])
    b('Q = 1.5', V, Q=1.5)
    if m.get('stride') is None:
        b('T larger than the signal', V, T=N + 1)
        b('T twice the signal', V, T=2 * N)
        b('negative T', V, T=-1)
        b('T between 0 and 1', V, T=0.5)
    if f != 'keras':
        if local:
            b('stride 3', V, stride=3, **({'oversampling': 0} if 'oversampling' in m else {}))
            b('stride 6', V, stride=6, **({'oversampling': 0} if 'oversampling' in m else {}))
            b('a float stride', V, stride=2.0, **({'oversampling': 0} if 'oversampling' in m else {}))
            b('stride 0', V, stride=0, **({'oversampling': 0} if 'oversampling' in m else {}))
            b('a negative stride', V, stride=-2, **({'oversampling': 0} if 'oversampling' in m else {}))
        else:
            for s in (1, 2, 4):
                b('stride=%d with T=%r' % (s, T), V, stride=s)
        b('an unknown out_type', V, out_type='matrix')
        b('out_type None', V, out_type=None)
        b("out_type='array' with T=0", V, T=0, stride=None, out_type='array', **({'oversampling': 0} if 'oversampling' in m else {}), **({'F': None, 'stride_fr': None} if 'F' in m else {}))
    if 'oversampling' in m:
        b('a negative oversampling', V, oversampling=-1, stride=None)
        b('a fractional oversampling', V, oversampling=0.5, stride=None)
        b('a float oversampling', V, oversampling=1.0, stride=None)
        if local and tt >= 2 and f != 'keras':
            lt = int(np.floor(np.log2(tt)))
            for s in {2 ** k for k in range(lt + 1)} - {2 ** (lt - 1)}:
                b('oversampling 1 with stride %d and T=%s' % (s, tt), V, oversampling=1, stride=s)
    return out


def badjtfs(m, f, i):
    out = bad1d(m, f, i)
    nfr = (m['J'] + 1) * m['Q'][0]

    def b(why, want, **k):
        out.append(dict(m, expect=want, why=why, **k))
    b('Q_fr = 0', V, Q_fr=0)
    b('Q_fr = (0,)', V, Q_fr=(0,))
    b('Q_fr = -1', V, Q_fr=-1)
    b('Q_fr = 1.5', V, Q_fr=1.5)
    b('a list as Q_fr', V, Q_fr=[1])
    b('two values of Q_fr', ('NotImplementedError',), Q_fr=(1, 1))
    b('F larger than the number of subbands', V, F=nfr + 1, stride_fr=None)
    b('F between 0 and 1', V, F=0.5, stride_fr=None)
    b('negative F', V, F=-2, stride_fr=None)
    if m['F'] in (0, 'global'):
        for s in (1, 2):
            b('stride_fr=%d with F=%r' % (s, m['F']), V, stride_fr=s)
    else:
        b('stride_fr 3', V, stride_fr=3)
        b('a float stride_fr', V, stride_fr=2.0)
        b('stride_fr 0', V, stride_fr=0)
    b('an unknown format', V, format='frequency')
    b('format None', V, format=None)
    b("format='joint' and out_type='array' with F=0", V, F=0, stride_fr=None, format='joint', out_type='array')
    return out


def bad2d(m, f, i):
    out = []
    M, N = m['shape']

    def b(why, want, **k):
        d = dict(m, expect=want, why=why, **k)
        s = d['shape']
        if 'x' not in k:
            d['x'] = Arr(padded2d(s[0], s[1], d['J']) if d['pre_pad'] else s, 'float32', i)
            if f == 'keras':
                d['x'] = Arr((1,) + d['x'].shape, 'float32', i)
        out.append(d)
    c = 2 ** m['J']
    b('a scale exceeding the height', R, shape=(c - 1, N))
    b('a scale exceeding the width', R, shape=(M, c - 1))
    if m['J'] > 1:
        b('a scale exceeding both sides', R, shape=(c // 2, c // 2))
    if f != 'keras':
        b('an unknown out_type', R, out_type='dict')
        b('out_type None', R, out_type=None)
    return out


def bad3d(m, f, i):
    out = []

    def b(why, want, **k):
        out.append(dict(m, expect=want, why=why, **k))
    b('an unknown averaging method', V, method='mean')
    b('method None', V, method=None)
    b('a capitalised method', V, method='Integral')
    return out


BADS = {'1d': bad1d, 'jtfs': badjtfs, '2d': bad2d, '3d': bad3d}


def conf(t, m, i, f):
    """the same model, in the variety of forms the constructor accepts"""
    m = dict(m)
    if t in ('1d', 'jtfs'):
        m['shape'] = (m.pop('N'),)
        m['Q'] = (m.pop('Q1'), m.pop('Q2'))
    elif t == '2d':
        m['shape'] = (m.pop('M'), m.pop('N'))
    else:
        m['shape'] = (m.pop('M'), m.pop('N'), m.pop('O'))
    return m


def forms(t, f, m, i):
    """equivalent legal spellings"""
    if t in ('1d', 'jtfs'):
        if f != 'keras' and i % 2:
            m = dict(m, shape=m['shape'][0])
        if m['Q'][1] == 1 and i % 3:
            m = dict(m, Q=m['Q'][0] if i % 3 == 1 else (m['Q'][0],))
        if t == 'jtfs' and i % 2:
            m = dict(m, Q_fr=(m['Q_fr'],))
        if t == '1d' and m['oversampling'] == 0 and f != 'keras' and i % 5 == 4:
            m = dict(m, oversampling=None)
        if m['stride'] is None and isinstance(m['T'], int) and 1 < m['T'] and i % 4 == 0:
            m = dict(m, T=m['T'] - 0.5)
        elif m['stride'] is None and m['T'] not in (0, 'global') and i % 4 == 1 and not m.get('oversampling'):
            # widths at both ends of the range
            n = m['shape'] if isinstance(m['shape'], int) else m['shape'][0]
            m = dict(m, T=n if i % 8 == 1 else 1)
        elif m['T'] not in (0, 'global') and f != 'keras' and i % 4 == 2:
            # strides at both ends of the range
            lt = int(np.floor(np.log2(2 ** m['J'] if m['T'] is None else m['T'])))
            m = dict(m, stride=1 if i % 8 == 2 else 2 ** lt, **({'oversampling': 0} if t == '1d' else {}))
    elif t == '2d' and i % 2:
        # the largest legal scale
        c = 2 ** m['J']
        sh = (c, m['shape'][1]) if i % 4 == 1 else (m['shape'][0], c)
        b = m['x'].shape[:-2]
        m = dict(m, shape=sh, x=Arr(b + (padded2d(*sh, m['J']) if m['pre_pad'] else sh), 'float32', i))
    return m


def models(t, f):
    def gen(tier, seed):
        n = {'1d': 8, 'jtfs': 4, '2d': 6, '3d': 5}[t] * (1 if tier == 'quick' else 8)
        i = len(f)

        def keep(m):
            if not small(t)(m):
                return False
            return not (f == 'keras' and t == '1d' and (m['T'] == 0 or m['stride'] is not None))
        for m in FAM[t](n, n, dtype='float32', batches=[(), (2,)], filt=keep)(tier, seed):
            i += 1
            if f == 'keras' and len(m['x'].shape) == (1 if t == '1d' else 2):
                m['x'] = Arr((1,) + m['x'].shape, 'float32', i)
            m = conf(t, m, i, f)
            m['refusal'] = True
            yield dict(forms(t, f, m, i), expect=None, why='a legal configuration')
            bad = BADS[t](m, f, i)
            yield from (bad if tier != 'quick' or len(bad) < 12 else [b for k, b in enumerate(bad) if (k + i) % 2 == 0])
    return gen


MOD = {'1d': 'kymatio.scattering1d', 'jtfs': 'kymatio.scattering1d', '2d': 'kymatio.scattering2d', '3d': 'kymatio.scattering3d'}
OTHERS = {'numpy': ['torch', 'jax', 'tensorflow', 'numpie', 'numpy_extra', ''], 'torch': ['numpy', 'tensorflow', 'torch_cuda'], 'tensorflow': ['numpy', 'torch', 'tensorflow_xla'],
          'jax': ['numpy', 'torch', 'jaxx'], 'sklearn': ['torch', 'numpy_extra']}


def backend_models(t, f, ok):
    def gen(tier, seed):
        N = 8 if t == '3d' else 32 if t in ('1d', 'jtfs') else 16
        sh = (N,) * {'1d': 1, 'jtfs': 1, '2d': 2, '3d': 3}[t]
        yield dict(J=2, N=N, x=Arr((2,) + sh, 'float32', 1), expect=None if ok else ('ImportError', 'ModuleNotFoundError'), why='the %s backend' % ('right' if ok else 'wrong'))
    return gen


def obligations(tier, seed):
    from .c13 import unknown_obs
    yield from unknown_obs('C10')
    for (t, f) in FRONTENDS:
        anchor = '%s.%s' % FRONTENDS[(t, f)][:2]
        fw = FWN[f]
        args = [atom('x', 'array')] + [atom(a, 'any') for a in FA[t]]
        k = 'k' if f == 'keras' else ''
        yield Ob('C10/%s/%s' % (t, f), anchor, Term('conf.cf%s%s' % (k, t), [Cls(t, f)] + args, fw), expected, models(t, f), cmp=cmp, note='configurations of %s on %s' % (t, f))
        if f == 'keras':
            continue
        own = {'sklearn': 'numpy'}.get(f, f)
        for b in [own] + OTHERS[f]:
            yield Ob('C10/%s/%s/backend=%s' % (t, f, b), anchor, Term('conf.be' + t, [Cls(t, f), atom('x', 'array'), atom('J', 'any'), atom('N', 'int'), b], fw), expected,
                     backend_models(t, f, b == own), cmp=cmp, note='backend %r given to %s on %s' % (b, t, f))
        for fo in ('numpy', 'torch', 'tensorflow', 'jax'):
            mod = '%s.backend.%s_backend' % (MOD[t], fo)
            yield Ob('C10/%s/%s/object=%s' % (t, f, fo), anchor, Term('conf.be' + t, [Cls(t, f), atom('x', 'array'), atom('J', 'any'), atom('N', 'int'), Obj(mod, 'backend')], fw),
                     expected, backend_models(t, f, fo == own), cmp=cmp, note='backend object of %s given to %s on %s' % (fo, t, f))
