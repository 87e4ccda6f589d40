"""C23: every JTFS frontend computes the documented cascade (dense reference in sa/specs/refjtfs.py)."""
from ..lemma import Ob, Term, Cls, FWN, FRONTENDS
from ..models import A, ARGS, FAM

EXPLANATION = ('value graph of every joint time-frequency frontend, with symbolic parameters and input, against the value graph of the documented transform '
               'written densely with its own filters, in each container, format and averaging mode')
TECHNIQUE = 'value-graph extraction by abstract interpretation; comparison with a dense specification graph by random-interpretation value numbering'
NOTE = ('Agreement of the two value graphs is decided per finite model of the integer parameters (bounded families of J, J_fr, N, Q, T, stride, Q_fr, F, '
        'stride_fr, out_type, format, batch shapes). Floating-point rounding is abstracted away.')
FLOOR = 1
FJ = [f for (t, f) in FRONTENDS if t == 'jtfs']


def obligations(tier, seed):
    for f in FJ:
        for ot in ('array', 'list', 'dict'):
            for fmt in ('joint', 'time'):
                a = A('x', *ARGS['jtfs'])
                n = 16 if f == 'numpy' else 9
                yield Ob('C23/%s/%s/%s' % (f, ot, fmt), '%s.%s' % FRONTENDS[('jtfs', f)][:2],
                         Term('refjtfs.impljtfs', [Cls('jtfs', f)] + a, FWN[f]), Term('refjtfs.specjtfs', [Cls('jtfs', 'numpy')] + a, 'np'),
                         FAM['jtfs'](n, 12 * n, dtype='float32', out=ot, fmt=fmt),
                         note='JTFS on %s is the documented cascade (%s, %s)' % (f, ot, fmt))
