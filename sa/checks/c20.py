"""C20: every 1D frontend computes the documented cascade (dense reference in sa/specs/ref1d.py)."""
from ..lemma import Ob, Term, Cls, FWN, FRONTENDS
from ..models import A, ARGS, FAM

EXPLANATION = ('value graph of every 1D frontend, with symbolic parameters and input, against the value graph of the documented cascade written densely '
               '(its own filters, full-length Fourier products, strided slices), in each container and averaging mode')
TECHNIQUE = 'value-graph extraction by abstract interpretation; comparison with a dense specification graph by random-interpretation value numbering'
NOTE = ('The specification and the implementation are turned into gated-SSA value graphs; agreement is decided per finite model of the integer parameters '
        '(bounded families of J, N, Q, T, stride, oversampling, max_order, out_type, batch shapes). Floating-point rounding is abstracted away.')
FLOOR = 1
F1 = [f for (t, f) in FRONTENDS if t == '1d' and f != 'keras']


def obligations(tier, seed):
    for f in F1:
        for ot in ('array', 'list', 'dict'):
            a = A('x', *ARGS['1d'])
            n = 40 if f == 'numpy' else 20
            yield Ob('C20/%s/%s' % (f, ot), '%s.%s' % FRONTENDS[('1d', f)][:2],
                     Term('ref1d.impl1d', [Cls('1d', f)] + a, FWN[f]), Term('ref1d.spec1d', [Cls('1d', 'numpy')] + a, 'np'),
                     FAM['1d'](n, 20 * n, dtype='float32', out=ot), note='1D scattering on %s is the documented cascade (%s)' % (f, ot))
