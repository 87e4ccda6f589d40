"""Host values and abstract heap objects."""
from .nodes import Host, Node, free_of


class Ref(Host):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('ref', self.oid))

    def __repr__(self):
        return '<ref %d>' % self.oid


CURRENT = [None]       # interpreter used to normalise pending stores


class ListObj:
    """list of segments; `pend` = (index node, value): element `index` was last overwritten with `value`"""
    __slots__ = ('kind', 'raw', 'binders', 'pend')

    def __init__(self, kind, segs, binders=(), pend=None):
        self.kind = kind
        self.raw = tuple(segs)
        self.binders = binders
        self.pend = pend

    @property
    def segs(self):
        if self.pend is None:
            return self.raw
        ip = CURRENT[0]
        base = ip.n('seq', self.kind, ip.freeze_segs(self.raw))
        return (ip.n('star', ip.n('setitem', base, ip.freeze(self.pend[0]), ip.freeze(self.pend[1]))),)


class DictObj:
    __slots__ = ('entries', 'binders', 'factory')

    def __init__(self, entries, binders=(), factory=None):
        self.entries = tuple(entries)
        self.binders = binders
        self.factory = factory


class InstObj:
    __slots__ = ('cls', 'attrs', 'dyn', 'binders')

    def __init__(self, cls, attrs, dyn=(), binders=()):
        self.cls = cls
        self.attrs = attrs
        self.dyn = dyn          # tuple of dict entries (for computed attribute names / buffers)
        self.binders = binders


class ModuleVal(Host):
    def __init__(self, name, path=None, tree=None):
        self.name = name
        self.path = path
        self.tree = tree
        self.fid = None
        self.loaded = False

    def __repr__(self):
        return '<module %s>' % self.name


class Ext(Host):
    """External (library) object known by dotted name."""
    _cache = {}

    def __new__(cls, name):
        o = cls._cache.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._cache[name] = o
        return o

    def __repr__(self):
        return '<ext %s>' % self.name


class ExtMember(Ext):
    """member found on an external base class (as opposed to a library object stored in an attribute)"""
    _mcache = {}

    def __new__(cls, name):
        o = cls._mcache.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._mcache[name] = o
        return o


class ClassVal(Host):
    def __init__(self, name, module, node, bases, attrs):
        self.name = name
        self.module = module
        self.node = node
        self.bases = bases
        self.attrs = attrs
        self.mro = None

    @property
    def qualname(self):
        return '%s.%s' % (self.module.name if self.module else '?', self.name)

    def __repr__(self):
        return '<class %s>' % self.qualname


class FuncVal(Host):
    def __init__(self, name, node, module, fid, defaults, kwdefaults, cls=None, qual=None):
        self.name = name
        self.node = node
        self.module = module
        self.fid = fid           # definition environment frame
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.qual = qual or name
        self.is_gen = False
        self.decorators = ()
        self.extra = {}

    def __repr__(self):
        return '<func %s>' % self.qual


class BoundMethod(Host):
    def __init__(self, func, selfv):
        self.func = func
        self.selfv = selfv

    def __repr__(self):
        return '<bound %r>' % (self.func,)


class StaticM(Host):
    def __init__(self, f):
        self.f = f


class ClassM(Host):
    def __init__(self, f):
        self.f = f


class PropertyVal(Host):
    def __init__(self, fget, fset=None, cached=False):
        self.fget = fget
        self.fset = fset
        self.cached = cached


class BoundBuiltin(Host):
    """method of a heap object, constant or external-base instance: resolved at call time"""
    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return '<builtin-method %r.%s>' % (self.obj, self.name)


class SuperVal(Host):
    def __init__(self, cls, selfv):
        self.cls = cls
        self.selfv = selfv


class Partial(Host):
    def __init__(self, f, args, kwargs):
        self.f = f
        self.args = args
        self.kwargs = kwargs


class RangeVal(Host):
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def free(self):
        return free_of(self.a) | free_of(self.b) | free_of(self.s)


class SliceVal(Host):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def free(self):
        return free_of(self.a) | free_of(self.b) | free_of(self.c)


class ExcVal(Host):
    def __init__(self, name, args, loc, cls=None):
        self.name = name
        self.args = args
        self.loc = loc
        self.cls = cls

    def __repr__(self):
        return '<exc %s>' % self.name


class Choice(Host):
    """gated union of host values: a if cond else b"""
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def free(self):
        return free_of(self.cond) | free_of(self.a) | free_of(self.b)

    def __repr__(self):
        return '<choice %r | %r>' % (self.a, self.b)
