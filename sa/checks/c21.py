"""C21: every 2D frontend computes the documented cascade (dense reference in sa/specs/ref2d.py)."""
from ..lemma import Ob, Term, Cls, FWN, FRONTENDS
from ..models import A, ARGS, FAM, deep2d

EXPLANATION = ('value graph of every 2D frontend, with symbolic parameters and input, against the value graph of the documented cascade written densely '
               '(its own oriented Morlet and Gaussian filters, full-size Fourier products, strided slices)')
TECHNIQUE = 'value-graph extraction by abstract interpretation; comparison with a dense specification graph by random-interpretation value numbering'
NOTE = ('Agreement of the two value graphs is decided per finite model of the integer parameters (bounded families of J, M, N, L, max_order, pre_pad, '
        'out_type, batch shapes). Floating-point rounding is abstracted away.')
FLOOR = 1
F2 = [f for (t, f) in FRONTENDS if t == '2d' and f != 'keras']


def obligations(tier, seed):
    for f in F2:
        for ot in ('array', 'list'):
            a = A('x', *ARGS['2d'])
            n = 6 if f == 'numpy' else 4
            models = FAM['2d'](n, 12 * n, dtype='float32', out=ot)
            if ot == 'array':
                models = deep2d(models, (5,) if f == 'numpy' else (), (5,))
            yield Ob('C21/%s/%s' % (f, ot), '%s.%s' % FRONTENDS[('2d', f)][:2],
                     Term('ref2d.impl2d', [Cls('2d', f)] + a, FWN[f]), Term('ref2d.spec2d', a, 'np'),
                     models, note='2D scattering on %s is the documented cascade (%s)' % (f, ot), tol=2e-6)
