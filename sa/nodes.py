"""Value-graph nodes (gated SSA terms) and host values of the abstract interpreter."""

_intern = {}
_byuid = {}
_counter = [0]
_allloops = []


def _k(a):
    if isinstance(a, Node):
        return ('N', a.uid)
    if isinstance(a, tuple):
        return ('t',) + tuple(_k(x) for x in a)
    if isinstance(a, (Loop, Host)):
        return ('H', id(a))
    if a is None or isinstance(a, (bool, int, str, bytes)):
        return (type(a).__name__, a)
    if isinstance(a, (float, complex)):
        return (type(a).__name__, repr(a))
    if a is Ellipsis:
        return ('...',)
    if a is UNDEF:
        return ('undef',)
    return ('O', id(a))


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()
_keep = []


def free_of(a):
    if isinstance(a, Node):
        return a.free
    if isinstance(a, tuple):
        s = frozenset()
        for x in a:
            s = s | free_of(x)
        return s
    if isinstance(a, Loop):
        return a.free()
    if isinstance(a, Host):
        return a.free()
    return frozenset()


class Node:
    __slots__ = ('op', 'args', 'loc', 'free', 'uid')

    def __repr__(self):
        return show(self)


class Host:
    """Base of host (compile-time) values: functions, classes, modules, references."""
    def free(self):
        return frozenset()


def mk(op, *args, loc=None):
    key = (op,) + tuple(_k(a) for a in args)
    n = _intern.get(key)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.args = args
    n.loc = loc
    f = frozenset()
    for a in args:
        f = f | free_of(a)
    _counter[0] += 1
    n.uid = _counter[0]
    if op in ('bound', 'carry'):
        f = frozenset([n])
    elif op in ('segloop', 'dloop', 'loopout'):
        L = args[0]
        syms = {L.binder}
        for sym, _i, _u in L.carries.values():
            syms.add(sym)
        f = frozenset()
        for a in args[1:]:
            f = f | free_of(a)
        f = (f - syms) | L.free()
    elif op == 'atiter':
        L = args[0]
        f = (free_of(args[1]) - frozenset(c[0] for c in L.carries.values())) | L.free() | frozenset([L.binder])
    n.free = f
    _intern[key] = n
    _byuid[n.uid] = n
    _keep.append(args)
    return n


def fresh(op, hint, loc=None):
    _counter[0] += 1
    return mk(op, _counter[0], hint, loc=loc)


class Loop:
    """A summarised loop: binder i in [0,count) (or while), carried recurrences, break condition."""
    def __init__(self, kind, binder, loc):
        self.kind = kind            # 'for' | 'while'
        self.binder = binder        # Node op 'bound'
        self.count = None           # Node/int for 'for'
        self.wcond = None           # Node/bool for 'while' (in terms of carries)
        self.carries = {}           # key -> [sym, init, update]
        self.brk = False            # break condition (after the iteration), Node/bool
        self.loc = loc
        self.done = False
        self._free = None

    def all_carries(self):
        return self.carries

    def free(self):
        if self._free is not None:
            return self._free
        f = free_of(self.count) | free_of(self.wcond) | free_of(self.brk)
        syms = set([self.binder])
        inits = frozenset()
        for sym, init, upd in self.carries.values():
            syms.add(sym)
            inits |= free_of(init)
            f |= free_of(upd)
        f = (f - frozenset(syms)) | inits
        if self.done:
            self._free = f
        return f


# ---- segments of a sequence: tuples (kind, ...)
#   ('one', value) ('loop', Loop, segs) ('ite', cond, segsA, segsB) ('star', node)
#   ('sorted', segs_of_pairs, reverse)  where pair elements are ('pair', keynode, segs)

def segs_free(segs):
    f = frozenset()
    for s in segs:
        f |= free_of(s)
    return f


def show(n, depth=4):
    if isinstance(n, Node):
        if n.op in ('bound', 'carry'):
            return '%s_%d' % (n.args[1], n.args[0])
        if n.op == 'atom':
            return str(n.args[0])
        if depth <= 0:
            return n.op + '(..)'
        return '%s(%s)' % (n.op, ', '.join(show(a, depth - 1) for a in n.args))
    if isinstance(n, tuple):
        return '(' + ', '.join(show(a, depth - 1) for a in n) + ')'
    if isinstance(n, Loop):
        return '<loop %s>' % (n.loc,)
    return repr(n)


def is_const(v):
    if v is None or v is Ellipsis or isinstance(v, (bool, int, float, complex, str, bytes)):
        return True
    if isinstance(v, tuple):
        return all(is_const(x) for x in v)
    return False


def contains(n, target):
    """does node/value n mention the bound/carry symbol target?"""
    return target in free_of(n)


def BYUID(u):
    return _byuid.get(u)
