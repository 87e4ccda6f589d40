"""C13: the entry classes dispatch to the requested frontend."""
from ..extract import atom
from ..lemma import Ob, Term, Cls, Obj, FRONTENDS, FWN
from ..models import A, ARGS, FAM
from .c03 import small, cmp

EXPLANATION = ('per transform and frontend name (several spellings, and no name at all): the object built by the entry class of the top-level package has exactly the class of that '
               'frontend and its coefficients are those of the class constructed directly with the same arguments, positional and keyword; the per-framework modules export that very '
               'class under the public name; unknown and unsupported frontend names raise')
TECHNIQUE = 'abstract interpretation of the dispatch (string-keyed imports and class replacement resolved on the project), identity of classes, graph identity and random-interpretation value numbering of the results'
NOTE = 'Class identity is exact; equality of the coefficients is decided per finite model when it is not a graph identity.'
FLOOR = 1
PUBLIC = {'1d': 'Scattering1D', 'jtfs': 'TimeFrequencyScattering', '2d': 'Scattering2D', '3d': 'HarmonicScattering3D'}
CASES = {'numpy': ['numpy', 'NumPy', 'NUMPY'], 'torch': ['torch', 'Torch', 'TORCH'], 'tensorflow': ['tensorflow', 'TensorFlow'], 'jax': ['jax', 'JAX', 'Jax'],
         'keras': ['keras', 'Keras'], 'sklearn': ['sklearn', 'SkLearn']}
UNKNOWN = ['pytorch', 'chainer', 'skcuda', '', 'numpy ', 'num', 'tf', 'NumPyy', 'entry', 'base']
UNSUPPORTED = [('jtfs', 'keras'), ('3d', 'keras')]


def models(t, f):
    n = {'1d': 4, 'jtfs': 2, '2d': 3, '3d': 3}[t]
    ok = (lambda m: small(t)(m) and not (f == 'keras' and t == '1d' and (m['T'] == 0 or m['stride'] is not None)))

    def gen(tier, seed):
        for i, m in enumerate(FAM[t](n, 8 * n, dtype='float32', batches=[(2,)], filt=ok)(tier, seed)):
            yield m
    return gen


def true(m):
    return ('value', True)


def rejected(want):
    def cmp(a, b, m):
        if a[0] != 'raise':
            return 'the frontend name is accepted'
        if want and a[1] not in want:
            return 'raises %s at %s instead of %s' % (a[1], a[2], ' or '.join(want))
    return cmp


def unknown_obs(prefix):
    one = lambda tier, seed: [dict(N=16)]
    for t in PUBLIC:
        E = Obj('kymatio', PUBLIC[t])
        for u in UNKNOWN:
            yield Ob('%s/%s/unknown=%r' % (prefix, t, u), 'kymatio.%s' % PUBLIC[t], Term('entry.un' + t, [E, u, atom('N', 'int')], 'np'), true, one,
                     cmp=rejected(('RuntimeError',)), note='unknown frontend name')
        if (t, 'keras') in UNSUPPORTED:
            yield Ob('%s/%s/unsupported=keras' % (prefix, t), 'kymatio.%s' % PUBLIC[t], Term('entry.un' + t, [E, 'keras', atom('N', 'int')], 'np'), true, one,
                     cmp=rejected(None), note='frontend without this transform')


def obligations(tier, seed):
    for (t, f) in FRONTENDS:
        E = Obj('kymatio', PUBLIC[t])
        fw = FWN[f]
        anchor = 'kymatio.%s' % PUBLIC[t]
        args = A('x', *ARGS[t])
        k = ''
        if f == 'keras':
            args = A('x', *(['J', 'N', 'Q1', 'Q2', 'T', 'max_order', 'oversampling'] if t == '1d' else ['J', 'M', 'N', 'L', 'max_order', 'pre_pad']))
            k = 'k'
        direct = Term('entry.di%s%s' % (k, t), [Cls(t, f)] + args, fw)
        for name in CASES[f]:
            yield Ob('C13/%s/%s' % (t, name), anchor, Term('entry.en%s%s' % (k, t), [E, Cls(t, f), name] + args, fw), direct, models(t, f), cmp=cmp,
                     note='%s(frontend=%r) is the %s class' % (PUBLIC[t], name, f))
        if f == 'numpy':
            yield Ob('C13/%s/default' % t, anchor, Term('entry.de' + t, [E, Cls(t, f), None] + args, fw), direct, models(t, f), cmp=cmp, note='%s() is the NumPy class' % PUBLIC[t])
        yield Ob('C13/%s/%s/export' % (t, f), 'kymatio.%s.%s' % (f, PUBLIC[t]), Term('entry.same', [Obj('kymatio.' + f, PUBLIC[t]), Cls(t, f)], fw), true, lambda tier, seed: [{}],
                 note='kymatio.%s.%s is the class the entry dispatches to' % (f, PUBLIC[t]))
    yield from unknown_obs('C13')
    for f in CASES:
        want = sorted(PUBLIC[t] for t in PUBLIC if (t, f) in FRONTENDS)
        yield Ob('C13/%s/__all__' % f, 'kymatio.' + f, Term('entry.names', [Obj('kymatio.' + f, '__all__')], FWN[f]), lambda m, want=want: ('value', want), lambda tier, seed: [{}],
                 note='public names of kymatio.' + f)
    for a, b in (('numpy', 'torch'), ('torch', 'numpy'), ('jax', 'sklearn')):
        yield Ob('C13/1d/%s-%s-%s' % (a, b, a), 'kymatio.Scattering1D', Term('entry.twice', [Obj('kymatio', 'Scattering1D'), a, b, Cls('1d', a), Cls('1d', b), atom('N', 'int')], 'torch'),
                 lambda m: ('value', (True, True, True, False)), lambda tier, seed: [dict(N=16)], note='constructions do not influence later ones')
