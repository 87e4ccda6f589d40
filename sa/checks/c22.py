"""C22: every 3D frontend computes the documented cascade (dense reference in sa/specs/ref3d.py)."""
from ..lemma import Ob, Term, Cls, FWN, FRONTENDS
from ..models import A, ARGS, FAM

EXPLANATION = ('value graph of every 3D frontend, with symbolic parameters and input, against the value graph of the documented solid harmonic cascade '
               'written densely with its own filters')
TECHNIQUE = 'value-graph extraction by abstract interpretation; comparison with a dense specification graph by random-interpretation value numbering'
NOTE = ('Agreement of the two value graphs is decided per finite model of the integer parameters (bounded families of J, M, N, O, L, sigma_0, max_order, '
        'rotation_covariant, integral powers, batch shapes). Only method="integral" exists in the code. Floating-point rounding is abstracted away.')
FLOOR = 1
F3 = [f for (t, f) in FRONTENDS if t == '3d']


def obligations(tier, seed):
    for f in F3:
        a = A('x', *ARGS['3d'])
        n = 40
        yield Ob('C22/%s' % f, '%s.%s' % FRONTENDS[('3d', f)][:2],
                 Term('ref3d.impl3d', [Cls('3d', f)] + a, FWN[f]), Term('ref3d.spec3d', a, 'np'),
                 FAM['3d'](n, 12 * n, dtype='float32'), note='3D scattering on %s is the documented cascade' % f, tol=2e-6)
