"""C26: concurrent calls and module replicas do not interfere."""
from ..lemma import Ob, Term, Cls, FWN, FRONTENDS, Arr, default_cmp
from ..models import A, ARGS, FAM
from .c03 import small, cmp

EXPLANATION = ('per frontend class, the call is interpreted under interference: after every statement, each cell of a shared object (the instance and everything reachable '
               'from it, its class, module globals) whose new content depends on this call holds what another thread, running the same call on another input, would have '
               'written; the resulting value graph must equal the undisturbed one. For PyTorch modules the same with a replica: a shallow copy of the module with buffers '
               'of its own, disturbed by a second replica')
TECHNIQUE = 'abstract interpretation with a rely (interference) step after each statement; equality of the value graphs by normal form or random-interpretation value numbering'
NOTE = ('Sequentially consistent memory and statement-level interleaving with the most recent write of the other party; blocks under a lock are not disturbed. '
        'Scheduling inside the libraries is not modelled.')
FLOOR = 1
NQ = {'1d': 12, 'jtfs': 6, '2d': 5, '3d': 8}
NT = {'1d': 120, 'jtfs': 50, '2d': 30, '3d': 80}


def models(t):
    fam = FAM[t](NQ[t], NT[t], dtype='float32', batches=[(2,), (), (3,)], filt=small(t))

    def g(tier, seed):
        for i, m in enumerate(fam(tier, seed)):
            x = m['x']
            n = {'1d': 1, 'jtfs': 1, '2d': 2, '3d': 3}[t]
            s = [True] * 8 if i % 3 == 0 else [k == i % 4 for k in range(8)] if i % 3 == 1 else [k != i % 4 for k in range(8)]
            m.update({'sched%d' % k: b for k, b in enumerate(s)})
            yield dict(m, y=Arr([(4,), (3,), (4,), (1,), (2, 2)][i % 5] + x.shape[len(x.shape) - n:], 'float32', 700 + i), c=2.0, c2=3.0)
    return g


def obligations(tier, seed):
    for (t, f) in FRONTENDS:
        if f == 'keras':
            continue
        anchor = '%s.%s' % FRONTENDS[(t, f)][:2]
        fw = FWN[f]
        a = A('x') + A(*ARGS[t])
        yield Ob('C26/%s/%s/threads' % (t, f), anchor, Term('conc.i' + t, [Cls(t, f)] + a, fw), Term('conc.p' + t, [Cls(t, f)] + a, fw), models(t), cmp=cmp,
                 note='%s on %s: a concurrent call on another input does not change the result' % (t, f))
        if f == 'torch':
            a = A('x', 'c') + A(*ARGS[t])
            yield Ob('C26/%s/torch/replicas' % t, anchor, Term('conc.r' + t, [Cls(t, f)] + a, fw), Term('conc.q' + t, [Cls(t, f)] + a, fw), models(t), cmp=cmp,
                     note='%s: a replica is not disturbed by another replica' % t)
