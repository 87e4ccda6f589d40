"""C25: names, attributes, imports and argument lists resolve."""
from .. import names
from ..lemma import Ob, Term, Cls, FWN, FRONTENDS
from ..models import A, ARGS, FAM
from .c03 import small

EXPLANATION = ('syntax trees of every module of the package: each name read, each import and export, each attribute of the package\'s modules, classes and NumPy namespaces, each attribute and '
               'method an object reads from itself on every concrete class (linearised inheritance), each call of the package\'s own functions, classes and methods, each backend operation on every '
               'backend, each local variable and each message template; and the value graphs of every public member of every frontend class')
TECHNIQUE = 'name and attribute resolution over syntax trees and class linearisations, argument binding, may-assigned dataflow for locals; abstract interpretation of the public members'
NOTE = ('Attributes that external base classes may provide are looked up as words in the installed sources of those classes, and accepted when the sources are not there. Locals unassigned on only '
        'some paths are decided only on the paths of the interpreted members. External libraries other than NumPy are not resolved.')
FLOOR = 1
BAD = ('NameError', 'UnboundLocalError', 'AttributeError', 'ImportError', 'ModuleNotFoundError', 'TypeError')


def resolves(a, b, m):
    if a[0] == 'raise' and a[1] in BAD:
        return 'raises %s at %s: %s' % (a[1], a[2], a[3])


def obligations(tier, seed):
    for (t, f) in FRONTENDS:
        k = 'k' if f == 'keras' else 'p'
        n = {'1d': 14, 'jtfs': 6, '2d': 4, '3d': 6}[t]
        kw = {}
        if f == 'keras':
            kw = dict(out='array', filt=lambda m, t=t: small(t)(m) and (t != '1d' or (m['T'] != 0 and m['stride'] is None)))
        yield Ob('C25/%s/%s' % (t, f), '%s.%s' % FRONTENDS[(t, f)][:2], Term('pub.%s%s' % (k, t), [Cls(t, f)] + A('x', *ARGS[t]), FWN[f]), lambda m: ('value', None),
                 FAM[t](n, n * 15, dtype='float32', batches=[(2,)], **dict(dict(filt=small(t)), **kw)), cmp=resolves, note='every public member resolves')


def rules(tier, seed):
    return names.run()
