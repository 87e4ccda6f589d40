"""Abstract interpreter: repository source -> value graphs + ordered event log.

Nothing here executes repository code.  Joins become `ite` nodes, loops become Loop summaries with
recurrences, calls to the repository's own functions are inlined, library calls become graph nodes.
"""
import ast
import builtins
import math
import os

from .nodes import (Node, Loop, Host, UNDEF, mk, fresh, free_of, is_const, show)
from .hosts import (Ref, ListObj, DictObj, InstObj, ModuleVal, Ext, ExtMember, ClassVal, FuncVal, BoundMethod,
                    StaticM, ClassM, PropertyVal, BoundBuiltin, SuperVal, Partial, RangeVal, SliceVal,
                    ExcVal, Choice)

MAX_DEPTH = 70


class AnalysisError(Exception):
    """The analysis itself cannot proceed (missing anchor, unparsable file)."""


class State:
    __slots__ = ('frames', 'heap', 'events', 'pc', 'dead', 'seq')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.events = []
        self.pc = ()
        self.dead = False
        self.seq = 0

    def clone(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.events = list(self.events)
        s.pc = self.pc
        s.dead = self.dead
        return s


class Breaks(list):
    """states that left a loop by break; flag: variable telling whether they did (loops with an else clause)"""
    flag = None


class FnCtx:
    def __init__(self, func, fid):
        self.func = func
        self.fid = fid
        self.returns = []
        self.yield_ref = None
        self.first_arg = None


class Event:
    __slots__ = ('kind', 'guard', 'data', 'loc')

    def __init__(self, kind, guard, data, loc):
        self.kind, self.guard, self.data, self.loc = kind, guard, data, loc

    def __repr__(self):
        return '<ev %s %r @%s>' % (self.kind, self.data, self.loc)


class Loc(tuple):
    """(path, line, function) source location"""
    def __new__(cls, path, line, func):
        return tuple.__new__(cls, (path, line, func))

    def __str__(self):
        return '%s:%s (%s)' % self


PURE_INPLACE_LIST = {'append', 'extend', 'insert', 'pop', 'sort', 'reverse', 'remove', 'clear', 'add', 'update', 'discard', 'appendleft', 'popleft'}
VIEW_ATTRS = {'T', 'real', 'imag', 'data'}
VIEW_METHODS = {'reshape', 'view', 'squeeze', 'unsqueeze', 'ravel', 'transpose', 'permute', 'expand', 'expand_as',
                'swapaxes', 'contiguous', 'detach', 'numpy', 'narrow', 'flatten', 'unfold', 'view_as', 'diagonal',
                'movedim', 'moveaxis', 'float', 'double', 'to', 'type', 'cpu', 'cuda', 'requires_grad_', 'items', 'values', 'get',
                'select', 'split', 'chunk', 'unbind', 'swapdims', 'expand_dims', 'reshape_as', 'type_as', 'astype'}
VIEW_FUNCS = {'reshape', 'ravel', 'squeeze', 'transpose', 'moveaxis', 'swapaxes', 'asarray', 'ascontiguousarray', 'atleast_1d', 'atleast_2d',
              'from_numpy', 'as_tensor', 'view_as_real', 'view_as_complex', 'expand_dims', 'broadcast_to', 'real', 'imag', 'split',
              'array_split', 'unsqueeze', 'rollaxis', 'asanyarray', 'permute', 'flatten', 'unbind', 'chunk', 'narrow', 'flip', 'fliplr', 'flipud', 'diagonal', 'detach', 'convert_to_tensor', 'identity'}
INPLACE_METHODS = {'fill', 'sort', 'itemset', 'put', 'setflags', 'partition', 'resize', 'byteswap', 'setfield'}
COMMUT = {'add', 'mul', 'eq', 'ne', 'and', 'or'}

AUGKEEP = ('add', 'sub', 'mul', 'div', 'pow')
BINOPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv',
          ast.Mod: 'mod', ast.Pow: 'pow', ast.LShift: 'lshift', ast.RShift: 'rshift', ast.BitAnd: 'bitand',
          ast.BitOr: 'bitor', ast.BitXor: 'bitxor', ast.MatMult: 'matmul'}
CMPOPS = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge',
          ast.Is: 'is', ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}

import operator as _op
PYOPS = {'add': _op.add, 'sub': _op.sub, 'mul': _op.mul, 'div': _op.truediv, 'floordiv': _op.floordiv,
         'mod': _op.mod, 'pow': _op.pow, 'lshift': _op.lshift, 'rshift': _op.rshift, 'bitand': _op.and_,
         'bitor': _op.or_, 'bitxor': _op.xor, 'eq': _op.eq, 'ne': _op.ne, 'lt': _op.lt, 'le': _op.le,
         'gt': _op.gt, 'ge': _op.ge}

BOOL_OPS = {'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'is', 'isnot', 'in', 'notin', 'not', 'and', 'or', 'truth', 'isinstance', 'libexc'}

CONST_FOLD_EXT = {'typing.TYPE_CHECKING': False, 
    'math.pi': math.pi, 'numpy.pi': math.pi, 'math.inf': math.inf, 'numpy.inf': math.inf, 'math.e': math.e,
    'numpy.nan': float('nan'), 'math.nan': float('nan'), 'numpy.newaxis': None, 'tensorflow.newaxis': None,
    'torch.__version__': '2.15.0', 'numpy.__version__': '1.26.4', 'scipy.__version__': '1.13.0',
    'tensorflow.__version__': '2.16.1', 'jax.__version__': '0.4.28', 'jax.numpy.pi': math.pi,
    'jax.numpy.newaxis': None, 'torch.pi': math.pi, 'jax.numpy.nan': float('nan'), 'jax.numpy.inf': math.inf,
}
MATH_FOLD = {'math.sqrt', 'math.log', 'math.log2', 'math.exp', 'math.floor', 'math.ceil', 'math.pow', 'math.log10'}

EXC_ALIAS = {'IOError': 'OSError', 'EnvironmentError': 'OSError'}


def exc_matches(name, handler):
    name = EXC_ALIAS.get(name, name)
    handler = EXC_ALIAS.get(handler, handler)
    if name == handler:
        return True
    a = getattr(builtins, name, None)
    b = getattr(builtins, handler, None)
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    return handler in ('Exception', 'BaseException')


def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    if isinstance(c, Node):
        if c.op == 'not':
            return c.args[0]
        return mk('not', c, loc=c.loc)
    return not c


def conj(cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c not in out:
            out.append(c)
    if not out:
        return True
    r = out[0]
    for c in out[1:]:
        r = mk('and', r, c)
    return r


def disj(cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if neg(c) in out:
            return True
        if c not in out:
            out.append(c)
    if not out:
        return False
    r = out[0]
    for c in out[1:]:
        r = mk('or', r, c)
    return r


def has_raise(e):
    return e.kind == 'raise' or (e.kind == 'loop' and any(has_raise(x) for x in e.data[1]))


def has_break(body):
    """does a break of this loop occur in its body"""
    for s in body:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            if has_break(s.orelse):
                return True
        elif not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            for f in ('body', 'orelse', 'finalbody'):
                if has_break(getattr(s, f, [])):
                    return True
            if any(has_break(h.body) for h in getattr(s, 'handlers', [])):
                return True
    return False


class Project:
    """All source modules of the package under analysis."""
    def __init__(self, root, package='kymatio'):
        self.root = root
        self.package = package
        self.modules = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError('package directory missing: %s' % base)
        for dp, dns, fns in os.walk(base):
            dns[:] = sorted(d for d in dns if d not in ('__pycache__', 'tests'))
            for fn in sorted(fns):
                if fn.endswith('.py'):
                    path = os.path.join(dp, fn)
                    rel = os.path.relpath(path, root)
                    name = rel[:-3].replace(os.sep, '.')
                    ispkg = name.endswith('.__init__')
                    if ispkg:
                        name = name[:-len('.__init__')]
                    with open(path, encoding='utf-8') as f:
                        src = f.read()
                    try:
                        tree = ast.parse(src, filename=path)
                    except SyntaxError as e:
                        raise AnalysisError('cannot parse %s: %s' % (path, e))
                    m = ModuleVal(name, rel, tree)
                    m.ispkg = ispkg
                    m.src = src
                    self.modules[name] = m

    def add_virtual(self, name, path):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        m = ModuleVal(name, os.path.relpath(path, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), ast.parse(src))
        m.ispkg = False
        m.src = src
        self.modules[name] = m
        return m


class Interp:
    def __init__(self, project, hooks=None, eager=True):
        self.project = project
        self.st = State()
        self._fid = 0
        self._oid = 0
        self.fn_stack = []
        self.loop_stack = []
        self.binders = ()
        self.try_stack = []
        self.cur = ('?', 0, '?')
        self.parent = {}        # fid -> parent fid
        self.frame_mod = {}     # fid -> module
        self.globals_decl = {}  # fid -> {name: fid}
        self.depth = 0
        self.hooks = hooks or {}
        self.functions_seen = set()
        self.ext_calls = {}
        self.memo_calls = {}
        self.memo_busy = set()
        self.ntry = 0
        self.watching = []
        self.faultnodes = {}
        self.interf = None
        self.tracking = False
        self.last_function = None
        self.classsaved = {}
        self.fw = getattr(self, 'fw', 'np')
        self.opaques = []
        self.inst_carries = set()
        self.inlined_calls = 0
        self.stubs = {}         # qualname -> callable(interp, args, kwargs, loc)
        self.with_stack = []
        self.captured = set()
        self.shadow = set()     # oids whose content has been copied out of sight: later mutation is undecided
        from . import hosts
        hosts.CURRENT[0] = self
        self.inplace_log = []
        self.in_load = True
        for m in list(project.modules.values()) if eager else ():
            self.load_module(m)
        self.in_load = False
        self.base = self.st
        self.base.events = []

    # ------------------------------------------------------------------ utils
    def reset(self):
        self.st = self.base.clone()
        self.st.events = []
        self.st.pc = ()
        self.st.dead = False
        self.fn_stack = []
        self.loop_stack = []
        self.binders = ()
        self.try_stack = []
        self.depth = 0
        self.opaques = []
        self.ext_calls = {}
        self.memo_calls = {}
        self.memo_busy = set()
        self.ntry = 0
        self.watching = []
        self.faultnodes = {}
        self.interf = None
        self.tracking = False
        self.last_function = None
        for c, at in self.classsaved.items():
            c.attrs.clear()
            c.attrs.update(at)
        self.classsaved = {}

    def loc(self):
        return Loc(*self.cur)

    def opaque(self, why):
        n = mk('opaque', why, str(self.loc()), loc=self.loc())
        self.opaques.append((why, str(self.loc())))
        return n

    def n(self, op, *args):
        return mk(op, *args, loc=self.loc())

    def new_oid(self, obj):
        self._oid += 1
        self.st.heap[self._oid] = obj
        return Ref(self._oid)

    def new_list(self, items=(), kind='list'):
        return self.new_oid(ListObj(kind, [mk('one', v) for v in items], self.binders))

    def new_list_segs(self, segs, kind='list'):
        return self.new_oid(ListObj(kind, segs, self.binders))

    def new_dict(self, items=()):
        return self.new_oid(DictObj([mk('dset', k, v) for k, v in items], self.binders))

    def obj(self, ref):
        return self.st.heap[ref.oid]

    def new_frame(self, parent, module):
        self._fid += 1
        self.st.frames[self._fid] = {}
        self.parent[self._fid] = parent
        self.frame_mod[self._fid] = module
        return self._fid

    def event(self, kind, data):
        self.st.events.append(Event(kind, self.st.pc, data, self.loc()))

    def mark(self, label):
        """remember what exists now: later writes to it are effects of the marked phase"""
        shared = set()
        seen = set()

        def add(v):
            if isinstance(v, Node):
                r = self.view_chain_root(v)[0]
                if isinstance(r, Node):
                    shared.add(r)
            elif isinstance(v, tuple):
                for x in v:
                    add(x)
        for o in self.st.heap.values():
            if isinstance(o, InstObj):
                for v in o.attrs.values():
                    add(v)
                for e in o.dyn or ():
                    if isinstance(e, Node) and e.op == 'dset':
                        add(e.args[1])
            elif isinstance(o, ListObj):
                for g in o.segs:
                    if g.op == 'one':
                        add(g.args[0])
            elif isinstance(o, DictObj):
                for e in o.entries:
                    if e.op == 'dset':
                        add(e.args[1])
        for fr in self.st.frames.values():
            for v in fr.values():
                add(v)
        self.event('mark', (label, self._oid, shared))

    # ------------------------------------------------------------------ modules
    def load_module(self, m):
        if m.loaded:
            return m
        # parents first
        if '.' in m.name:
            p = self.project.modules.get(m.name.rsplit('.', 1)[0])
            if p is not None:
                self.load_module(p)
        if m.loaded:
            return m
        m.loaded = True
        fid = self.new_frame(None, m)
        m.fid = fid
        fr = self.st.frames[fid]
        fr['__name__'] = m.name
        fr['__file__'] = m.path
        fr['__doc__'] = ast.get_docstring(m.tree)
        saved = (self.cur, self.fn_stack, self.loop_stack, self.binders, self.try_stack)
        self.fn_stack, self.loop_stack, self.binders, self.try_stack = [], [], (), []
        ctx = FnCtx(None, fid)
        self.fn_stack.append(ctx)
        self.cur = (m.path, 0, '<module>')
        st_dead = self.st.dead
        self.st.dead = False
        inload, self.in_load = self.in_load, True
        try:
            self.exec_block(m.tree.body, fid)
        finally:
            self.in_load = inload
            self.cur, self.fn_stack, self.loop_stack, self.binders, self.try_stack = saved
        self.st.dead = st_dead
        return m

    def resolve_relative(self, module, level, name):
        if level == 0:
            return name
        parts = module.name.split('.')
        if not module.ispkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([name] if name else []))

    def import_module(self, dotted):
        m = self.project.modules.get(dotted)
        if m is not None:
            self.load_module(m)
            return m
        if dotted == self.project.package or dotted.startswith(self.project.package + '.'):
            return None
        return Ext(dotted)

    def do_import(self, s, fid):
        mod = self.frame_mod[fid]
        if isinstance(s, ast.Import):
            for a in s.names:
                v = self.import_module(a.name)
                self.event('import', a.name)
                if v is None:
                    self.raise_exc('ModuleNotFoundError', (a.name,), implicit=True)
                    continue
                if a.asname:
                    self.set_var(fid, a.asname, v)
                else:
                    top = a.name.split('.')[0]
                    self.set_var(fid, top, self.import_module(top))
        else:
            base = self.resolve_relative(mod, s.level, s.module)
            m = self.import_module(base)
            self.event('import', base)
            for a in s.names:
                if a.name == '*':
                    if isinstance(m, ModuleVal):
                        fr = self.st.frames[m.fid]
                        names = self.star_names(m)
                        for k in names:
                            if k in fr:
                                self.set_var(fid, k, fr[k])
                            else:
                                self.raise_exc('AttributeError', ('module %s has no attribute %s' % (m.name, k),), implicit=True)
                    continue
                if m is None:
                    self.raise_exc('ModuleNotFoundError', (base,), implicit=True)
                    continue
                if isinstance(m, ModuleVal):
                    fr = self.st.frames[m.fid]
                    if a.name in fr:
                        v = fr[a.name]
                    else:
                        v = self.import_module(base + '.' + a.name)
                        if v is None:
                            self.raise_exc('ImportError', ('cannot import %s from %s' % (a.name, base),), implicit=True)
                            v = self.opaque('unresolved import')
                else:
                    v = self.ext(base + '.' + a.name)
                self.set_var(fid, a.asname or a.name, v)

    def star_names(self, m):
        fr = self.st.frames[m.fid]
        if '__all__' in fr:
            v = fr['__all__']
            vals = self.concrete_items(v)
            if vals is not None:
                return [x for x in vals if isinstance(x, str)]
        return [k for k in fr if not k.startswith('_')]

    def ext(self, name):
        if name in CONST_FOLD_EXT:
            return CONST_FOLD_EXT[name]
        return Ext(name)

    # ------------------------------------------------------------------ variables
    def find_frame(self, fid, name):
        g = self.globals_decl.get(fid)
        if g and name in g:
            return g[name]
        f = fid
        while f is not None:
            if name in self.st.frames.get(f, {}):
                return f
            f = self.parent.get(f)
        m = self.frame_mod[fid]
        if m.fid is not None and name in self.st.frames[m.fid]:
            return m.fid
        return None

    def get_var(self, fid, name):
        f = self.find_frame(fid, name)
        if f is not None:
            v = self.st.frames[f][name]
            v = self.drop_undef(v, name)
            return v
        if name == '__class__' and self.fn_stack and self.fn_stack[-1].func is not None and self.fn_stack[-1].func.cls is not None:
            return self.fn_stack[-1].func.cls
        if hasattr(builtins, name) or name in ('__file__',):
            return Ext('builtins.' + name)
        self.raise_exc('NameError', ('name %r is not defined' % name,), implicit=True)
        return self.opaque('undefined name ' + name)

    def drop_undef(self, v, name):
        if v is UNDEF:
            self.raise_exc('UnboundLocalError', (name,), implicit=True)
            return self.opaque('unbound local ' + name)
        if isinstance(v, Choice):
            if v.a is UNDEF:
                if self.cond_known(v.cond) is False:
                    return self.drop_undef(v.b, name)
                self.event('unbound', (name, v.cond))
                return self.drop_undef(v.b, name)
            if v.b is UNDEF:
                if self.cond_known(v.cond) is True:
                    return self.drop_undef(v.a, name)
                self.event('unbound', (name, neg(v.cond)))
                return self.drop_undef(v.a, name)
        return v

    def set_var(self, fid, name, v):
        g = self.globals_decl.get(fid)
        if g and name in g:
            self.event('globalwrite', (name,))
            if self.interf is not None and not self.interf.off:
                v = self.interf.wrap(v, self.loc())
            self.st.frames[g[name]][name] = v
            return
        self.st.frames[fid][name] = v

    # ------------------------------------------------------------------ conditions
    def truth(self, v):
        if v is UNDEF:
            return False
        if is_const(v):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Node):
            if v.op in BOOL_OPS:
                return v
            if v.op == 'ite':
                a, b = self.truth(v.args[1]), self.truth(v.args[2])
                if a is b and isinstance(a, bool):
                    return a
                if a is True and b is False:
                    return v.args[0]
                if a is False and b is True:
                    return neg(v.args[0])
            return self.n('truth', v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListObj):
                if any(s.op == 'one' for s in o.segs):
                    return True
                if not o.segs:
                    return False
                return self.n('truth', self.freeze(v))
            if isinstance(o, DictObj):
                if any(e.op == 'dset' for e in o.entries):
                    return True
                if not o.entries:
                    return False
                return self.n('truth', self.freeze(v))
            if isinstance(o, InstObj):
                return True
        if isinstance(v, Choice):
            a, b = self.truth(v.a), self.truth(v.b)
            if isinstance(a, bool) and isinstance(b, bool):
                if a == b:
                    return a
                return v.cond if a else neg(v.cond)
            return disj([conj([v.cond, a]), conj([neg(v.cond), b])])
        if isinstance(v, RangeVal):
            return self.truth(self.length(v))
        return True

    def cond_known(self, c):
        if isinstance(c, bool):
            return c
        if not isinstance(c, Node):
            return bool(c)
        pc = self.st.pc
        if c in pc:
            return True
        if neg(c) in pc:
            return False
        if c.op == 'and':
            a, b = self.cond_known(c.args[0]), self.cond_known(c.args[1])
            if a is False or b is False:
                return False
            if a is True and b is True:
                return True
        elif c.op == 'or':
            a, b = self.cond_known(c.args[0]), self.cond_known(c.args[1])
            if a is True or b is True:
                return True
            if a is False and b is False:
                return False
        elif c.op == 'not':
            a = self.cond_known(c.args[0])
            if a is not None:
                return not a
        elif c.op == 'is' and c.args[1] is None:
            # x is None is false when pc knows isinstance(x, ..) etc. -- left to the model
            pass
        return None

    def push_pc(self, c):
        if c is True:
            return
        if isinstance(c, Node) and c.op == 'and':
            self.push_pc(c.args[0])
            self.push_pc(c.args[1])
            return
        if isinstance(c, Node) and c.op == 'not' and isinstance(c.args[0], Node) and c.args[0].op == 'or':
            self.push_pc(neg(c.args[0].args[0]))
            self.push_pc(neg(c.args[0].args[1]))
            return
        if c not in self.st.pc:
            self.st.pc = self.st.pc + (c,)

    def branch(self, cond, fa, fb):
        """run fa under cond and fb under not cond; returns merged result value"""
        k = self.cond_known(cond)
        if k is True:
            return fa()
        if k is False:
            return fb()
        base = self.st
        sa = base.clone()
        self.st = sa
        self.push_pc(cond)
        pa = self.st.pc
        ra = fa()
        sa = self.st
        sb = base.clone()
        self.st = sb
        self.push_pc(neg(cond))
        pb = self.st.pc
        rb = fb()
        sb = self.st
        pc = base.pc if sa.pc == pa and sb.pc == pb else self.join_pc([sa.pc, sb.pc], base.pc)
        st, r = self.merge2(cond, sa, ra, sb, rb, pc)
        self.st = st
        return r

    # ------------------------------------------------------------------ merging
    def merge2(self, cond, A, ra, B, rb, basepc):
        if A.dead and B.dead:
            m = A
            m.events = self.merge_events(A.events, B.events)
            m.dead = True
            m.pc = basepc
            return m, ra
        if A.dead:
            B.events = self.merge_events(A.events, B.events)
            for oid, o in A.heap.items():
                if oid not in B.heap:
                    B.heap[oid] = o
            return B, rb
        if B.dead:
            A.events = self.merge_events(A.events, B.events)
            for oid, o in B.heap.items():
                if oid not in A.heap:
                    A.heap[oid] = o
            return A, ra
        M = State()
        M.pc = basepc
        M.events = self.merge_events(A.events, B.events)
        M.heap = {}
        self._mergectx = (A, B, M)
        for oid in A.heap:
            oa = A.heap[oid]
            ob = B.heap.get(oid)
            if ob is None or oa is ob:
                M.heap[oid] = oa
        for oid in B.heap:
            if oid not in A.heap:
                M.heap[oid] = B.heap[oid]
        for oid in A.heap:
            if oid not in M.heap:
                M.heap[oid] = self.merge_obj(cond, A.heap[oid], B.heap[oid], A, B, M)
        for fid in set(A.frames) | set(B.frames):
            fa = A.frames.get(fid)
            fb = B.frames.get(fid)
            if fa is None or fb is None:
                M.frames[fid] = fa if fa is not None else fb
                continue
            f = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                va = fa.get(k, UNDEF)
                vb = fb.get(k, UNDEF)
                f[k] = self.merge_val(cond, va, vb, A, B, M)
            M.frames[fid] = f
        r = self.merge_val(cond, ra, rb, A, B, M)
        return M, r

    def merge_events(self, ea, eb):
        i = 0
        while i < len(ea) and i < len(eb) and ea[i] is eb[i]:
            i += 1
        return ea + eb[i:]

    def flush(self, o, st):
        saved = self.st
        self.st = st if st is not None else saved
        try:
            self.mark_shadow(o.pend[1])
            return ListObj(o.kind, o.segs, o.binders)
        finally:
            self.st = saved

    def mark_shadow(self, v, depth=0):
        if depth > 6:
            return
        if isinstance(v, tuple):
            for x in v:
                self.mark_shadow(x, depth + 1)
        elif isinstance(v, Ref):
            o = self.st.heap.get(v.oid)
            if o is None or isinstance(o, InstObj) or v.oid in self.shadow:
                return
            self.shadow.add(v.oid)
            for s in (o.raw if isinstance(o, ListObj) else o.entries):
                for a in s.args:
                    if isinstance(a, (Ref, tuple)):
                        self.mark_shadow(a, depth + 1)

    def merge_obj(self, cond, oa, ob, A, B, M):
        if isinstance(oa, ListObj) and isinstance(ob, ListObj):
            if oa.pend is not None:
                oa = self.flush(oa, A)
            if ob.pend is not None:
                ob = self.flush(ob, B)
            i = 0
            while i < len(oa.segs) and i < len(ob.segs) and oa.segs[i] is ob.segs[i]:
                i += 1
            ta, tb = oa.segs[i:], ob.segs[i:]
            # same length, all ones, pointwise mergeable (in-place stores)
            if len(ta) == len(tb) and all(s.op == 'one' for s in ta) and all(s.op == 'one' for s in tb):
                segs = [mk('one', self.merge_val(cond, x.args[0], y.args[0], A, B, M)) for x, y in zip(ta, tb)]
                return ListObj(oa.kind, oa.segs[:i] + tuple(segs), oa.binders)
            return ListObj(oa.kind, oa.segs[:i] + (self.n('iteseg', cond, ta, tb),), oa.binders)
        if isinstance(oa, DictObj) and isinstance(ob, DictObj):
            i = 0
            while i < len(oa.entries) and i < len(ob.entries) and oa.entries[i] is ob.entries[i]:
                i += 1
            ta, tb = oa.entries[i:], ob.entries[i:]
            if (len(ta) == len(tb) and all(s.op == 'dset' for s in ta + tb)
                    and all(x.args[0] is y.args[0] or x.args[0] == y.args[0] for x, y in zip(ta, tb))):
                es = [mk('dset', x.args[0], self.merge_val(cond, x.args[1], y.args[1], A, B, M)) for x, y in zip(ta, tb)]
                return DictObj(oa.entries[:i] + tuple(es), oa.binders, oa.factory)
            return DictObj(oa.entries[:i] + (self.n('dite', cond, ta, tb),), oa.binders, oa.factory)
        if isinstance(oa, InstObj) and isinstance(ob, InstObj):
            attrs = {}
            for k in list(oa.attrs) + [k for k in ob.attrs if k not in oa.attrs]:
                attrs[k] = self.merge_val(cond, oa.attrs.get(k, UNDEF), ob.attrs.get(k, UNDEF), A, B, M)
            dyn = oa.dyn
            if oa.dyn != ob.dyn:
                i = 0
                while i < len(oa.dyn) and i < len(ob.dyn) and oa.dyn[i] is ob.dyn[i]:
                    i += 1
                dyn = oa.dyn[:i] + (mk('dite', cond, oa.dyn[i:], ob.dyn[i:]),)
            cls = oa.cls if oa.cls is ob.cls else oa.cls
            return InstObj(cls, attrs, dyn, oa.binders)
        return oa

    def merge_val(self, cond, a, b, A=None, B=None, M=None):
        if a is b:
            return a
        if is_const(a) and is_const(b) and type(a) is type(b) and a == b and not isinstance(a, tuple):
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(cond, x, y, A, B, M) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return Choice(cond, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid:
                return a
            if M is not None and a.oid not in B.heap and b.oid not in A.heap:
                oa, ob = M.heap.get(a.oid), M.heap.get(b.oid)
                if isinstance(oa, ListObj) and isinstance(ob, ListObj) and oa.kind == ob.kind:
                    merged = self.merge_obj(cond, A.heap.get(a.oid, oa), B.heap.get(b.oid, ob), A, B, M)
                    self._oid += 1
                    M.heap[self._oid] = merged
                    return Ref(self._oid)
                if isinstance(oa, DictObj) and isinstance(ob, DictObj):
                    merged = self.merge_obj(cond, A.heap.get(a.oid, oa), B.heap.get(b.oid, ob), A, B, M)
                    self._oid += 1
                    M.heap[self._oid] = merged
                    return Ref(self._oid)
            return Choice(cond, a, b)
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod) and a.func is b.func and self.same(a.selfv, b.selfv):
            return a
        if isinstance(a, Host) or isinstance(b, Host):
            return Choice(cond, a, b)
        return self.ite(cond, self.freeze_in(a, A), self.freeze_in(b, B))

    def same(self, a, b):
        return a is b or (isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid)

    def freeze_in(self, v, st):
        if st is None or st is self.st:
            return self.freeze(v)
        saved = self.st
        self.st = st
        try:
            return self.freeze(v)
        finally:
            self.st = saved

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if is_const(a) and is_const(b) and type(a) is type(b) and a == b:
            return a
        if a is True and b is False:
            return c
        if a is False and b is True:
            return neg(c)
        return self.n('ite', c, a, b)

    # ------------------------------------------------------------------ freezing
    def freeze(self, v, depth=0):
        if isinstance(v, Node) or is_const(v):
            return v
        if isinstance(v, tuple):
            return tuple(self.freeze(x, depth) for x in v)
        if isinstance(v, Ref):
            if depth > 40:
                return mk('host', v)
            o = self.obj(v)
            if isinstance(o, ListObj):
                return mk('seq', o.kind, self.freeze_segs(o.segs, depth + 1), loc=self.loc())
            if isinstance(o, DictObj):
                return mk('dict', self.freeze_entries(o.entries, depth + 1), loc=self.loc())
            return mk('host', v)
        if isinstance(v, Choice):
            if v.a is UNDEF:
                return self.freeze(v.b, depth)
            if v.b is UNDEF:
                return self.freeze(v.a, depth)
            return self.ite(v.cond, self.freeze(v.a, depth), self.freeze(v.b, depth))
        if isinstance(v, SliceVal):
            return mk('slice', self.freeze(v.a), self.freeze(v.b), self.freeze(v.c))
        if isinstance(v, RangeVal):
            return mk('range', self.freeze(v.a), self.freeze(v.b), self.freeze(v.s))
        if v is UNDEF:
            return UNDEF
        return mk('host', v)

    def freeze_segs(self, segs, depth=0):
        out = []
        for s in segs:
            if s.op == 'one':
                out.append(mk('one', self.freeze(s.args[0], depth)))
            elif s.op == 'segloop':
                out.append(mk('segloop', s.args[0], self.freeze_segs(s.args[1], depth)))
            elif s.op == 'iteseg':
                out.append(mk('iteseg', s.args[0], self.freeze_segs(s.args[1], depth), self.freeze_segs(s.args[2], depth)))
            elif s.op == 'star':
                out.append(s)
            elif s.op == 'sorted':
                out.append(mk('sorted', self.freeze_segs(s.args[0], depth), s.args[1]))
            elif s.op == 'keyed':
                out.append(mk('keyed', s.args[0], self.freeze_segs(s.args[1], depth)))
            else:
                out.append(s)
        return tuple(out)

    def freeze_entries(self, es, depth=0):
        out = []
        for e in es:
            if e.op == 'dset':
                out.append(mk('dset', self.freeze(e.args[0], depth), self.freeze(e.args[1], depth)))
            elif e.op == 'dite':
                out.append(mk('dite', e.args[0], self.freeze_entries(e.args[1], depth), self.freeze_entries(e.args[2], depth)))
            elif e.op == 'dloop':
                out.append(mk('dloop', e.args[0], self.freeze_entries(e.args[1], depth)))
            else:
                out.append(e)
        return tuple(out)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, fid):
        for s in stmts:
            if self.st.dead:
                return
            self.exec_stmt(s, fid)
            if self.interf is not None and not self.st.dead:
                self.interf.step()

    def at(self, node):
        self.cur = (self.cur[0], getattr(node, 'lineno', self.cur[1]), self.cur[2])

    def exec_stmt(self, s, fid):
        self.at(s)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.event('unsupported', type(s).__name__)
            self.opaque('unsupported statement ' + type(s).__name__)
            return
        m(s, fid)

    def x_Expr(self, s, fid):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fid)

    def x_Pass(self, s, fid):
        pass

    def x_Import(self, s, fid):
        self.do_import(s, fid)

    def x_ImportFrom(self, s, fid):
        self.do_import(s, fid)

    def x_Global(self, s, fid):
        d = self.globals_decl.setdefault(fid, {})
        for n in s.names:
            d[n] = self.frame_mod[fid].fid

    def x_Nonlocal(self, s, fid):
        d = self.globals_decl.setdefault(fid, {})
        for n in s.names:
            f = self.parent.get(fid)
            while f is not None and n not in self.st.frames.get(f, {}):
                f = self.parent.get(f)
            if f is not None:
                d[n] = f

    def x_Assert(self, s, fid):
        c = self.truth(self.ev(s.test, fid))

        def bad():
            self.raise_exc('AssertionError', ())
        self.branch(c, lambda: None, bad)

    def x_Delete(self, s, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, fid)
                key = self.ev_index(t.slice, fid)
                if isinstance(base, Ref):
                    o = self.obj(base)
                    self.note_mutation(base, 'del item')
                    if isinstance(o, DictObj):
                        es = [e for e in o.entries if not (e.op == 'dset' and is_const(e.args[0]) and e.args[0] == key)]
                        self.st.heap[base.oid] = DictObj(es, o.binders, o.factory)
                    elif isinstance(o, ListObj):
                        items = self.concrete_items(base)
                        if items is not None and isinstance(key, int):
                            items = list(items)
                            del items[key]
                            self.st.heap[base.oid] = ListObj(o.kind, [mk('one', x) for x in items], o.binders)
                        else:
                            self.st.heap[base.oid] = ListObj(o.kind, [mk('star', self.opaque('del'))], o.binders)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, fid)
                if isinstance(base, Ref) and isinstance(self.obj(base), InstObj):
                    o = self.obj(base)
                    self.note_mutation(base, 'del attr ' + t.attr)
                    at = dict(o.attrs)
                    at.pop(t.attr, None)
                    self.st.heap[base.oid] = InstObj(o.cls, at, o.dyn, o.binders)

    def x_Return(self, s, fid):
        v = self.ev(s.value, fid) if s.value is not None else None
        if self.st.dead:
            return
        ctx = self.fn_stack[-1]
        self.stamp()
        ctx.returns.append((self.st, v))
        self.st = self.st.clone()
        self.st.dead = True

    nexit = 0

    def stamp(self):
        """number the ways out of a construct in the order of execution"""
        self.nexit += 1
        self.st.seq = self.nexit

    def x_Raise(self, s, fid):
        if s.exc is None:
            self.raise_exc('RuntimeError', ())
            return
        v = self.ev(s.exc, fid)
        if self.st.dead:
            return
        self.raise_value(v)

    def raise_value(self, v):
        if isinstance(v, Choice):
            self.branch(v.cond, lambda: self.raise_value(v.a), lambda: self.raise_value(v.b))
            return
        if isinstance(v, ExcVal):
            self.raise_exc(v.name, v.args, exc=v)
        elif isinstance(v, Ext):
            self.raise_exc(v.name.split('.')[-1], ())
        elif isinstance(v, ClassVal):
            self.raise_exc(self.exc_base(v), ())
        elif isinstance(v, Ref) and isinstance(self.obj(v), InstObj):
            self.raise_exc(self.exc_base(self.obj(v).cls), ())
        elif isinstance(v, Node) and v.op == 'libexcval':
            self.raise_exc(v.args[0], ())
        else:
            self.raise_exc('Exception', ())

    def exc_base(self, cls):
        for c in self.mro(cls):
            if isinstance(c, Ext):
                return c.name.split('.')[-1]
        return cls.name

    def raise_exc(self, name, args, exc=None, implicit=False):
        if self.st.dead:
            return
        if not isinstance(exc, ExcVal):
            exc = ExcVal(name, tuple(args), self.loc())
        for handlers in reversed(self.try_stack):
            for h in handlers:
                if h['names'] is None or any(exc_matches(name, x) for x in h['names']):
                    if h['depth'] < self.loop_depth:
                        # leaves a summarised loop from within an iteration
                        self.st.events.append(Event('undecided', self.st.pc, ('exception caught outside the loop',), self.loc()))
                        self.st.dead = True
                        return
                    h['states'].append((self.st, exc))
                    self.st = self.st.clone()
                    self.st.dead = True
                    return
        self.st.events.append(Event('raise', self.st.pc, (name, implicit, exc), self.loc()))
        self.st.dead = True

    def x_If(self, s, fid):
        c = self.truth(self.ev(s.test, fid))
        if self.st.dead:
            return
        self.at(s)
        self.branch(c, lambda: self.exec_block(s.body, fid), lambda: self.exec_block(s.orelse, fid))

    def x_With(self, s, fid):
        pushed = 0
        for it in s.items:
            v = self.ev(it.context_expr, fid)
            self.event('with', self.freeze(v))
            self.with_stack.append(v)
            pushed += 1
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fid)
        untracked = self.tracking and any(stops_gradient(v) for v in self.with_stack[len(self.with_stack) - pushed:])
        if untracked:
            before = (dict(self.st.frames.get(fid, {})), dict(self.st.heap))
            nret = len(self.fn_stack[-1].returns) if self.fn_stack else 0
        lock = self.interf is not None and any(is_lock(it.context_expr) for it in s.items)
        if lock:
            self.interf.off += 1
        self.exec_block(s.body, fid)
        if lock:
            self.interf.off -= 1
        for _ in range(pushed):
            self.with_stack.pop()
        if untracked:
            self.untrack(fid, before, nret)

    def untrack(self, fid, before, nret):
        """values computed while gradient tracking was off"""
        frame, heap = before

        def w(v):
            if isinstance(v, Node) and v.op not in ('host', 'gradcut'):
                return mk('gradcut', v, loc=self.loc())
            if isinstance(v, tuple):
                return tuple(w(x) for x in v)
            return v
        if not self.st.dead:
            fr = self.st.frames.get(fid, {})
            for k, v in list(fr.items()):
                if frame.get(k) is not v:
                    fr[k] = w(v)
            for oid, o in list(self.st.heap.items()):
                if heap.get(oid) is o:
                    continue
                if isinstance(o, ListObj):
                    self.st.heap[oid] = ListObj(o.kind, [mk('one', w(s.args[0])) if s.op == 'one' else s for s in o.segs], o.binders)
                elif isinstance(o, DictObj):
                    self.st.heap[oid] = DictObj(tuple(mk('dset', e.args[0], w(e.args[1])) if e.op == 'dset' else e for e in o.entries), o.binders, o.factory)
                elif isinstance(o, InstObj):
                    old = heap.get(oid)
                    at = {k: (v if isinstance(old, InstObj) and old.attrs.get(k) is v else w(v)) for k, v in o.attrs.items()}
                    self.st.heap[oid] = InstObj(o.cls, at, o.dyn, o.binders)
        if self.fn_stack:
            r = self.fn_stack[-1].returns
            for i in range(nret, len(r)):
                v = r[i][1]
                if isinstance(v, (Ref, Choice)) or isinstance(v, Node) and v.op in ('host', 'ite'):
                    cur, self.st = self.st, r[i][0]
                    v = self.freeze(v)
                    self.st = cur
                r[i] = (r[i][0], w(v))

    def x_Try(self, s, fid):
        handlers = []
        for h in s.handlers:
            if h.type is None:
                names = None
            else:
                t = self.ev(h.type, fid)
                ts = t if isinstance(t, tuple) else (t,)
                names = []
                for x in ts:
                    if isinstance(x, Ext):
                        names.append(x.name.split('.')[-1])
                    elif isinstance(x, ClassVal):
                        names.append(x.name)
                    else:
                        names.append('Exception')
            handlers.append({'names': names, 'node': h, 'states': [], 'depth': self.loop_depth})
        entry = self.st.clone()
        basepc = self.st.pc
        # the library may raise inside the body: one symbolic fault per handler, default false
        faults = []
        if handlers and not self.in_load:
            for k, h in enumerate(handlers):
                f = mk('libexc', '%s:%d' % (self.cur[0], s.lineno), ','.join(h['names'] or ['*']), self.ntry, k, loc=self.loc())
                faults.append(f)
            self.ntry += 1
        if faults:
            for f in faults:
                self.push_pc(neg(f))
        self.try_stack.append(handlers)
        if faults:
            self.watching.append(([], len(self.st.pc)))
        self.exec_block(s.body, fid)
        if faults:
            w, _ = self.watching.pop()
            for k, f in enumerate(faults):
                self.faultnodes[f] = (tuple(w), handlers[k]['names'], [h['names'] for h in handlers[:k]])
        self.try_stack.pop()
        if not self.st.dead and s.orelse:
            self.exec_block(s.orelse, fid)
        body_state = self.st
        out_states = []
        for k, h in enumerate(handlers):
            starts = list(h['states'])
            if faults:
                fs = entry.clone()
                self.st = fs
                for j in range(k):
                    self.push_pc(neg(faults[j]))
                self.push_pc(faults[k])
                nm = (h['names'] or ['Exception'])[0]
                starts.append((fs, ExcVal(nm, (), self.loc())))
            for st0, exc in starts:
                self.st = st0
                if h['node'].name:
                    self.st.frames[fid][h['node'].name] = exc
                self.exec_block(h['node'].body, fid)
                out_states.append(self.st)
        st = self.merge_many(out_states + [body_state], basepc)
        self.st = st
        if s.finalbody:
            dead = self.st.dead
            if not dead:
                self.exec_block(s.finalbody, fid)
            else:
                self.st.dead = False
                self.exec_block(s.finalbody, fid)
                self.st.dead = True

    x_TryStar = x_Try

    def merge_many(self, states, basepc):
        """merge mutually exclusive states (guards = pc beyond basepc)"""
        alive = [s for s in states if not s.dead]
        deads = [s for s in states if s.dead]
        if not alive:
            acc = states[-1]
            for s in states[:-1]:
                acc.events = self.merge_events(s.events, acc.events)
            acc.pc = basepc
            return acc
        pcs = [s.pc for s in alive]
        acc = alive[-1]
        for s in reversed(alive[:-1]):
            g = conj(self.pc_beyond(s.pc, basepc))
            acc, _ = self.merge2(g, s, None, acc, None, basepc)
        for s in deads:
            acc.events = self.merge_events(s.events, acc.events)
            for oid, o in s.heap.items():
                if oid not in acc.heap:
                    acc.heap[oid] = o
        if len(alive) > 1:
            acc.pc = self.join_pc(pcs, basepc)
        return acc

    def join_pc(self, pcs, basepc):
        """path condition of the join of disjoint paths (paths that left the construct are not among them)"""
        acc = list(pcs[-1])
        for p in reversed(pcs[:-1]):
            n = 0
            while n < len(p) and n < len(acc) and p[n] is acc[n]:
                n += 1
            g = disj([conj(p[n:]), conj(acc[n:])])
            acc = list(p[:n]) + ([] if g is True else [g])
        if len(acc) < len(basepc) or any(x is not y for x, y in zip(acc, basepc)):
            return basepc
        return tuple(acc)

    def pc_beyond(self, pc, basepc):
        n = 0
        while n < len(pc) and n < len(basepc) and pc[n] is basepc[n]:
            n += 1
        return list(pc[n:])

    def x_FunctionDef(self, s, fid):
        f = self.make_func(s, fid)
        v = f
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v, fid)
        self.set_var(fid, s.name, v)

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, s, fid, cls=None):
        a = s.args
        defaults = [self.ev(d, fid) for d in a.defaults]
        kwd = [self.ev(d, fid) if d is not None else UNDEF for d in a.kw_defaults]
        name = getattr(s, 'name', '<lambda>')
        f = FuncVal(name, s, self.frame_mod[fid], fid, defaults, kwd)
        c = fid
        while c is not None:
            self.captured.add(c)
            c = self.parent.get(c)
        f.is_gen = not isinstance(s, ast.Lambda) and _has_yield(s)
        f.qual = self.frame_mod[fid].name + '.' + name
        f.binders = self.binders
        return f

    def apply_decorator(self, d, v, fid):
        dv = self.ev(d, fid)
        if isinstance(dv, Ext):
            n = dv.name
            short = n.split('.')[-1]
            if n == 'builtins.property':
                return PropertyVal(v)
            if n == 'builtins.staticmethod':
                return StaticM(v)
            if n == 'builtins.classmethod':
                return ClassM(v)
            if short == 'cached_property':
                if isinstance(v, FuncVal):
                    v.decorators += (n,)
                return PropertyVal(v, cached=True)
            if isinstance(v, FuncVal):
                v.decorators += (n,)
            return v
        if isinstance(dv, BoundBuiltin) and isinstance(dv.obj, PropertyVal):
            if dv.name == 'setter':
                return PropertyVal(dv.obj.fget, v)
            return dv.obj
        if isinstance(dv, (FuncVal, Partial, BoundMethod)):
            return self.call(dv, [v], {})
        if isinstance(dv, Node):
            if isinstance(v, FuncVal):
                v.decorators += (str(dv),)
            return v
        return v

    def x_ClassDef(self, s, fid):
        bases = [self.ev(b, fid) for b in s.bases]
        cfid = self.new_frame(fid if self.frame_mod[fid].fid != fid else None, self.frame_mod[fid])
        cls = ClassVal(s.name, self.frame_mod[fid], s, bases, {})
        self.exec_block(s.body, cfid)
        fr = self.st.frames[cfid]
        cls.attrs = dict(fr)
        cls.attrs.setdefault('__doc__', ast.get_docstring(s))
        for k, v in cls.attrs.items():
            for f in self._funcs_in(v):
                if f.cls is None:
                    f.cls = cls
                    f.qual = '%s.%s.%s' % (self.frame_mod[fid].name, s.name, f.name)
        v = cls
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v, fid)
        self.set_var(fid, s.name, cls)

    def _funcs_in(self, v):
        if isinstance(v, FuncVal):
            yield v
        elif isinstance(v, (StaticM, ClassM)):
            yield from self._funcs_in(v.f)
        elif isinstance(v, PropertyVal):
            yield from self._funcs_in(v.fget)
            if v.fset is not None:
                yield from self._funcs_in(v.fset)

    # ---- assignment
    def x_Assign(self, s, fid):
        v = self.ev(s.value, fid)
        if self.st.dead:
            return
        for t in s.targets:
            self.assign(t, v, fid)

    def x_AnnAssign(self, s, fid):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fid), fid)

    def x_AugAssign(self, s, fid):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.get_var(fid, t.id)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fid)
            cur = self.getattr(base, t.attr)
        else:
            base = self.ev(t.value, fid)
            key = self.ev_index(t.slice, fid)
            cur = self.getitem(base, key)
        rhs = self.ev(s.value, fid)
        if self.st.dead:
            return
        if isinstance(cur, Ref) and isinstance(self.obj(cur), ListObj) and op == 'add':
            self.list_method(cur, 'extend', [rhs], {})
            new = cur
        else:
            new = self.binop(op, cur, rhs)
            if (isinstance(cur, Node) and isinstance(rhs, Node) and isinstance(new, Node) and new.op == op and op in AUGKEEP
                    and (self.maybe_array(cur) or cur.op in ('carry', 'loopout')) and self.maybe_array(rhs)
                    and not is_const(cur) and not is_const(rhs)
                    and not self.plain_scalar(cur) and not self.plain_scalar(rhs)):
                new = self.n('augbin', op, cur, rhs)
            if isinstance(cur, Node) and self.maybe_array(cur) and self.mutable(cur):
                self.event('inplace', (cur, 'augmented ' + op))
                if self.surely_array(cur) and isinstance(new, Node) and self.mutable(cur):
                    self.replace_everywhere(cur, new)
        if isinstance(t, ast.Name):
            f = self.find_frame(fid, t.id)
            self.set_var(fid, t.id, new)
        elif isinstance(t, ast.Attribute):
            self.setattr(base, t.attr, new)
        else:
            self.setitem(base, key, new)

    def assign(self, t, v, fid):
        if isinstance(t, ast.Name):
            self.set_var(fid, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fid)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fid)
            self.setattr(base, t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fid)
            key = self.ev_index(t.slice, fid)
            self.setitem(base, key, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fid)

    def unpack(self, elts, v, fid):
        if isinstance(v, Choice):
            vals = None
            a, b = self.tuple_of(v.a, len(elts)), self.tuple_of(v.b, len(elts))
            if a is not None and b is not None:
                for k, e in enumerate(elts):
                    self.assign(e, self.merge_val(v.cond, a[k], b[k], self.st, self.st, self.st), fid)
                return
        items = v if isinstance(v, tuple) else self.concrete_items(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if items is not None:
            items = list(items)
            if star:
                i = star[0]
                after = len(elts) - i - 1
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(e, x, fid)
                self.assign(elts[i].value, self.new_list(items[i:len(items) - after]), fid)
                for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, fid)
            else:
                if len(items) != len(elts):
                    self.raise_exc('ValueError', ('unpack',), implicit=True)
                    return
                for e, x in zip(elts, items):
                    self.assign(e, x, fid)
            return
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, self.opaque('starred unpack'), fid)
            else:
                self.assign(e, self.getitem(v, i), fid)

    def tuple_of(self, v, n):
        items = v if isinstance(v, tuple) else self.concrete_items(v)
        if items is not None and len(items) == n:
            return list(items)
        if isinstance(v, Node):
            return [self.getitem(v, i) for i in range(n)]
        return None

    # ---- loops
    def x_For(self, s, fid):
        it = self.ev(s.iter, fid)
        if self.st.dead:
            return

        def body(elem):
            self.assign(s.target, elem, fid)
            self.exec_block(s.body, fid)
        flag = None
        if has_break(s.body):
            flag = '$broke%d' % s.lineno
        self.run_loop(it, body, fid, (lambda: self.exec_block(s.orelse, fid)) if s.orelse else None, flag)

    x_AsyncFor = x_For

    def run_loop(self, it, body, fid, orelse=None, flag=None):
        if isinstance(it, Choice):
            self.branch(it.cond, lambda: self.run_loop(it.a, body, fid, orelse, flag),
                        lambda: self.run_loop(it.b, body, fid, orelse, flag))
            return
        segs = self.iter_segs(it)
        basepc = self.st.pc
        breaks = Breaks()
        if flag:
            breaks.flag = (fid, flag)
            self.st.frames[fid][flag] = False
        walked = self.obj(it).segs if isinstance(it, Ref) and isinstance(self.obj(it), ListObj) else None
        self.process_segs(segs, body, breaks)
        if walked is not None and not self.st.dead and isinstance(self.obj(it), ListObj) and list(self.obj(it).segs) != list(walked):
            self.event('undecided', ('a list that changes while it is walked',))
        if orelse is not None:
            self.out_of_loop(breaks)
            if not self.st.dead:
                orelse()
        if breaks:
            self.st = self.merge_many(breaks + [self.st], basepc)
        if flag:
            self.st.frames[fid].pop(flag, None)

    def out_of_loop(self, breaks):
        """separate the executions that left a summarised loop by break from those that ran to its end"""
        if self.st.dead or not getattr(breaks, 'flag', None):
            return
        fid, name = breaks.flag
        f = self.st.frames[fid].get(name, False)
        if not isinstance(f, Node):
            return

        def left():
            self.stamp()
            breaks.append(self.st)
            self.st = self.st.clone()
            self.st.dead = True
        self.branch(self.n('truth', f), left, lambda: None)

    def process_segs(self, segs, body, breaks):
        for k, s in enumerate(segs):
            if k and segs[k - 1].op != 'one':
                self.out_of_loop(breaks)
            if self.st.dead:
                return
            if s.op == 'one':
                ctx = {'cont': [], 'brk': breaks}
                basepc = self.st.pc
                self.loop_stack.append(ctx)
                body(s.args[0])
                self.loop_stack.pop()
                if ctx['cont']:
                    self.st = self.merge_many(ctx['cont'] + [self.st], basepc)
            elif s.op == 'segloop':
                L = s.args[0]
                if L.binder in self.binders:
                    n = mk('seq', 'list', self.freeze_segs((s,)))
                    self.process_segs([mk('star', n)], body, breaks)
                else:
                    self.sym_loop(L, lambda brk, inner=s.args[1]: self.process_segs(inner, body, brk), breaks)
            elif s.op == 'iteseg':
                self.branch(s.args[0], lambda: self.process_segs(s.args[1], body, breaks),
                            lambda: self.process_segs(s.args[2], body, breaks))
            elif s.op == 'star':
                node = s.args[0]
                if isinstance(node, Node) and node.op == 'seq' and not self._binders_clash(node):
                    self.process_segs(node.args[1], body, breaks)
                    continue
                L = self.new_loop('for')
                L.count = self.n('len', node)
                el = self.getitem(node, L.binder)
                self.sym_loop(L, lambda brk: self.process_segs([mk('one', el)], body, brk), breaks)
            elif s.op == 'sorted':
                snap = self.st
                self.st = snap.clone()
                nret, nbrk, nev = len(self.fn_stack[-1].returns), len(breaks), len(snap.events)
                nex = [[len(h['states']) for h in hs] for hs in self.try_stack]
                nop = len(self.opaques)
                self.process_sorted(s, body, breaks)
                if len(self.fn_stack[-1].returns) != nret or len(breaks) != nbrk or nex != [[len(h['states']) for h in hs] for hs in self.try_stack] \
                        or self.order_matters(snap, self.st, nev):
                    # not a permutation of independent iterations: walk over the sorted sequence
                    del self.fn_stack[-1].returns[nret:]
                    del breaks[nbrk:]
                    for hs, ns in zip(self.try_stack, nex):
                        for h, n in zip(hs, ns):
                            del h['states'][n:]
                    del self.opaques[nop:]
                    self.st = snap
                    node = mk('seq', 'list', self.freeze_segs((s,)))
                    L = self.new_loop('for')
                    L.count = self.n('len', node)
                    el = self.getitem(node, L.binder)
                    self.sym_loop(L, lambda brk: self.process_segs([mk('one', el)], body, brk), breaks)
            elif s.op == 'keyed':
                self.process_segs(s.args[1], body, breaks)
            else:
                self.opaque('segment ' + s.op)

    def _binders_clash(self, node):
        def scan(segs):
            for s in segs:
                if s.op == 'segloop':
                    if s.args[0].binder in self.binders:
                        return True
                    if scan(s.args[1]):
                        return True
                elif s.op == 'iteseg':
                    if scan(s.args[1]) or scan(s.args[2]):
                        return True
                elif s.op in ('sorted',):
                    if scan(s.args[0]):
                        return True
            return False
        return scan(node.args[1])

    def new_loop(self, kind):
        b = fresh('bound', 'i')
        return Loop(kind, b, self.loc())

    def order_matters(self, a, b, nev):
        """did iterations over a sorted sequence do anything but append to lists"""
        if b.dead or any(has_raise(e) for e in b.events[nev:]):
            return True
        for fid, fa in a.frames.items():
            fb = b.frames.get(fid, {})
            for k, v in fa.items():
                w = fb.get(k, UNDEF)
                if w is not v and not (is_const(v) and is_const(w) and type(v) is type(w) and v == w) \
                        and not (isinstance(v, Ref) and isinstance(w, Ref) and v.oid == w.oid):
                    return True
        for oid, oa in a.heap.items():
            ob = b.heap.get(oid)
            if ob is oa or ob is None:
                continue
            if not (isinstance(ob, ListObj) and isinstance(oa, ListObj) and ob.segs[:len(oa.segs)] == oa.segs):
                return True
        return False

    def process_sorted(self, s, body, breaks):
        pre = {oid: o for oid, o in self.st.heap.items() if isinstance(o, ListObj)}

        def run(segs):
            for k in segs:
                if k.op == 'segloop':
                    L = k.args[0]
                    if L.binder in self.binders:
                        self.opaque('nested iteration over sorted sequence')
                        return
                    self.sym_loop(L, lambda brk, inner=k.args[1]: run(inner), breaks)
                elif k.op == 'iteseg':
                    self.branch(k.args[0], lambda: run(k.args[1]), lambda: run(k.args[2]))
                elif k.op == 'keyed':
                    before = {oid: o for oid, o in self.st.heap.items() if isinstance(o, ListObj)}
                    self.process_segs(k.args[1], body, breaks)
                    for oid, o in list(self.st.heap.items()):
                        b = before.get(oid)
                        if b is not None and b is not o and isinstance(o, ListObj):
                            n = len(b.segs)
                            if o.segs[:n] == b.segs:
                                self.st.heap[oid] = ListObj(o.kind, b.segs + (mk('keyed', k.args[0], o.segs[n:]),), o.binders)
                else:
                    self.opaque('segment in sorted ' + k.op)
        before_vars = {f: dict(v) for f, v in self.st.frames.items()}
        run(s.args[0])
        for oid, b in pre.items():
            o = self.st.heap.get(oid)
            if o is not b and isinstance(o, ListObj):
                n = len(b.segs)
                if o.segs[:n] == b.segs:
                    self.st.heap[oid] = ListObj(o.kind, b.segs + (mk('sorted', o.segs[n:], s.args[1]),), o.binders)
        for f, v in self.st.frames.items():
            bv = before_vars.get(f)
            if bv is None:
                continue
            for k, x in v.items():
                if k not in bv or (x is not bv[k]):
                    if isinstance(x, Node) and x.op == 'loopout':
                        v[k] = mk('opaque', 'order-dependent value of sorted iteration', str(self.loc()))

    def x_While(self, s, fid):
        # constant-condition fast path: while False
        L = self.new_loop('while')

        def inner(brk):
            c = self.truth(self.ev(s.test, fid))
            L.wcond = c if L.wcond_trial else L.wcond
            self.push_pc(c)
            ctx = {'cont': [], 'brk': brk}
            base = self.st.pc
            self.loop_stack.append(ctx)
            self.exec_block(s.body, fid)
            self.loop_stack.pop()
            if ctx['cont']:
                self.st = self.merge_many(ctx['cont'] + [self.st], base)
        L.wcond_trial = True
        L.wcond = True
        breaks = Breaks()
        flag = '$broke%d' % s.lineno if s.orelse and has_break(s.body) else None
        if flag:
            breaks.flag = (fid, flag)
            self.st.frames[fid][flag] = False
        # try concrete unrolling when the condition is constant along the way
        snap = self.st
        if self.unroll_while(s, fid):
            return
        self.st = snap
        basepc = self.st.pc
        self.sym_loop(L, inner, breaks)
        if s.orelse:
            self.out_of_loop(breaks)
            if not self.st.dead:
                self.exec_block(s.orelse, fid)
        if breaks:
            self.st = self.merge_many(breaks + [self.st], basepc)
        if flag:
            self.st.frames[fid].pop(flag, None)

    def unroll_while(self, s, fid):
        """unroll while the condition is a known constant (bounded); False -> caller summarises"""
        trial = self.st.clone()
        nret = len(self.fn_stack[-1].returns)
        saved = self.st
        self.st = trial
        basepc = self.st.pc
        breaks = []
        for _ in range(64):
            c = self.truth(self.ev(s.test, fid))
            k = self.cond_known(c)
            if k is None:
                self.st = saved
                del self.fn_stack[-1].returns[nret:]
                return False
            if k is False or self.st.dead:
                if s.orelse and not self.st.dead:
                    self.exec_block(s.orelse, fid)
                if breaks:
                    self.st = self.merge_many(breaks + [self.st], basepc)
                return True
            ctx = {'cont': [], 'brk': breaks}
            b0 = self.st.pc
            self.loop_stack.append(ctx)
            self.exec_block(s.body, fid)
            self.loop_stack.pop()
            if ctx['cont']:
                self.st = self.merge_many(ctx['cont'] + [self.st], b0)
            if self.st.dead:
                if breaks:
                    self.st = self.merge_many(breaks + [self.st], basepc)
                return True
        self.st = saved
        del self.fn_stack[-1].returns[nret:]
        return False

    def x_Break(self, s, fid):
        if self.loop_stack and not self.st.dead:
            brk = self.loop_stack[-1]['brk']
            if getattr(brk, 'flag', None):
                self.st.frames[brk.flag[0]][brk.flag[1]] = True
            self.stamp()
            brk.append(self.st)
        self.st = self.st.clone()
        self.st.dead = True

    def x_Continue(self, s, fid):
        if self.loop_stack and not self.st.dead:
            self.loop_stack[-1]['cont'].append(self.st)
        self.st = self.st.clone()
        self.st.dead = True

    def sym_loop(self, L0, inner, outer_breaks):
        """Summarise a loop.  inner(breaks) executes one iteration with L0.binder in scope."""
        entry = self.st
        ctx = self.fn_stack[-1]
        self.loop_depth += 1
        try:
            return self._sym_loop(L0, inner, outer_breaks, entry, ctx)
        finally:
            self.loop_depth -= 1

    loop_depth = 0

    def may_be_instance(self, v):
        from .builtin_calls import holds_instance
        if isinstance(v, Ref):
            return isinstance(self.st.heap.get(v.oid), InstObj)
        if isinstance(v, Choice):
            return self.may_be_instance(v.a) or self.may_be_instance(v.b)
        return holds_instance(v, self)

    def _sym_loop(self, L0, inner, outer_breaks, entry, ctx):
        saved_returns = ctx.returns
        saved_binders = self.binders
        carried = {}        # cell -> sym
        for attempt in range(20):
            L = Loop(L0.kind, L0.binder, L0.loc)
            L.count = L0.count
            for k, v in L0.carries.items():
                L.carries[k] = list(v)
            L.wcond = L0.wcond
            st = entry.clone()
            st.events = []
            self.st = st
            for cell, sym in carried.items():
                self.set_cell(st, cell, sym)
            start = st.clone()
            self.binders = saved_binders + (L.binder,)
            ctx.returns = []
            brks = Breaks()
            brks.flag = getattr(outer_breaks, 'flag', None)
            log0 = len(self.inplace_log)
            inner(brks)
            if L0.kind == 'while':
                L.wcond = L0.wcond
            normal = self.st
            self.binders = saved_binders
            rets = ctx.returns
            ctx.returns = saved_returns
            basepc = entry.pc
            retflag = ('v', ctx.fid, '$ret')
            retval = ('v', ctx.fid, '$retval')
            bguards = []
            for (rs, rv) in rets:
                rs.frames[ctx.fid]['$ret'] = True
                rs.frames[ctx.fid]['$retval'] = rv
            # the earlier way out comes first, falling through to the next iteration last
            ends = sorted(list(brks) + [rs for (rs, rv) in rets], key=lambda x: x.seq)
            for e in ends:
                bguards.append(conj(self.pc_beyond(e.pc, basepc)))
            if not normal.dead:
                ends.append(normal)
            if rets:
                for e in ends:
                    e.frames[ctx.fid].setdefault('$ret', False)
                    e.frames[ctx.fid].setdefault('$retval', None)
            allst = ends + ([normal] if normal.dead else [])
            if not ends:
                # every iteration ends in an exception
                self.st = normal
                ev = normal.events
                res = entry.clone()
                L.brk = True
                L.done = True
                if ev:
                    res.events = entry.events + [Event('loop', entry.pc, (L, ev), L.loc)]
                self.st = res
                return
            end = self.merge_many([s for s in ends] + ([normal] if normal.dead else []), basepc)
            end_events = end.events
            L.brk = disj(bguards) if bguards else False
            mod = self.modified_cells(start, end, L.binder)
            new = [c for c in mod if c not in carried]
            if rets:
                for c in (retflag, retval):
                    if c not in carried and c not in new:
                        new.append(c)
            if not new:
                break
            for c in new:
                carried[c] = fresh('carry', str(c[-1] if c[0] in 'vak' else 'h%d' % c[1]))
                if c[0] in 'vak' and any(self.may_be_instance(self.get_cell(x, c)) for x in (entry, end)):
                    self.inst_carries.add(carried[c])
                if c[0] == 'd':
                    for c2 in [c2 for c2 in carried if c2[0] == 'k' and c2[1] == c[1]]:
                        del carried[c2]
        else:
            self.opaque('loop summary did not converge')
        # install results
        res = entry.clone()
        for oid, o in end.heap.items():
            if oid not in res.heap:
                res.heap[oid] = o
            elif isinstance(o, (ListObj, DictObj, InstObj)) and L.binder in getattr(o, 'binders', ()):
                res.heap[oid] = o
        for fid2, fr in end.frames.items():
            if fid2 not in res.frames:
                res.frames[fid2] = fr
        self.st = end
        # which container cells follow the append pattern?
        updates = {}
        append_cells = {}
        for cell, sym in carried.items():
            if cell[0] in ('l', 'd', 'D'):
                cur = self.get_cell(end, cell)
                seq = cur.segs if cell[0] == 'l' else (cur.entries if cell[0] == 'd' else cur)
                marker = mk('star', sym) if cell[0] == 'l' else mk('dbase', sym)
                if len(seq) >= 1 and seq[0] is marker and not any(sym in free_of(x) for x in self.freeze_any(seq[1:], cell[0])):
                    append_cells[cell] = seq[1:]
        # a marker referenced from anywhere else prevents the append pattern
        changed = True
        while changed:
            changed = False
            used = set()
            for cell, sym in carried.items():
                if cell in append_cells:
                    for x in self.freeze_any(append_cells[cell], cell[0]):
                        used |= free_of(x)
                    continue
                if cell not in updates:
                    updates[cell] = self.freeze_cell(end, cell)
                used |= free_of(updates[cell])
            used |= free_of(L.brk)
            used |= self.events_free(end_events)
            if L.kind == 'while':
                used |= free_of(L.wcond)
            for cell in list(append_cells):
                if carried[cell] in used:
                    del append_cells[cell]
                    changed = True
        for cell, sym in carried.items():
            if cell in append_cells:
                continue
            init = self.freeze_cell(entry, cell)
            if cell in (retflag, retval) and cell[2] not in entry.frames[ctx.fid]:
                init = False if cell == retflag else None
            upd = updates[cell]
            if upd is sym:
                iv0 = self.get_cell(entry, cell) if cell[0] in 'vak' else init
                if isinstance(iv0, Node) and self.view_chain_root(iv0)[0] in self.inplace_log[log0:]:
                    upd = self.opaque('in-place update of an alias inside a loop')
            L.carries[cell] = [sym, init, upd]
        L.done = True
        self.st = res
        for cell, sym in carried.items():
            if cell in append_cells:
                cur = self.get_cell(entry, cell)
                if cell[0] == 'l':
                    seg = mk('segloop', L, tuple(append_cells[cell]), loc=L.loc)
                    res.heap[cell[1]] = ListObj(cur.kind, cur.segs + (seg,), cur.binders)
                elif cell[0] == 'd':
                    seg = mk('dloop', L, tuple(append_cells[cell]), loc=L.loc)
                    res.heap[cell[1]] = DictObj(cur.entries + (seg,), cur.binders, cur.factory)
                else:
                    seg = mk('dloop', L, tuple(append_cells[cell]), loc=L.loc)
                    o = res.heap[cell[1]]
                    res.heap[cell[1]] = InstObj(o.cls, o.attrs, o.dyn + (seg,), o.binders)
            else:
                ev = self.get_cell(end, cell)
                iv = self.get_cell(entry, cell)
                if cell[0] in ('v', 'a') and self.host_result(ev, iv, L):
                    self.set_cell(res, cell, ev)
                else:
                    self.set_cell(res, cell, mk('loopout', L, cell, loc=L.loc))
        newsyms = frozenset(v[0] for c, v in L.carries.items() if c not in L0.carries)
        if newsyms:
            self.close_family(res, L, newsyms)
        if end_events:
            res.events = entry.events + [Event('loop', entry.pc, (L, end_events), L.loc)]
        self.st = res
        if rets:
            fr = res.frames[ctx.fid]
            flag = fr.pop('$ret')
            val = fr.pop('$retval')
            base = self.st

            def doret():
                self.stamp()
                ctx.returns.append((self.st, val))
                self.st = self.st.clone()
                self.st.dead = True
            self.branch(self.n('truth', flag) if isinstance(flag, Node) else bool(flag), doret, lambda: None)

    def close_family(self, st, L, syms):
        """per-iteration objects must not mention the loop's own recurrences once the loop is left: tie them to
        the value of the recurrence at their iteration"""
        def wrap(v):
            if isinstance(v, (Node, tuple)) and free_of(v) & syms:
                if isinstance(v, tuple):
                    return tuple(wrap(x) for x in v)
                return mk('atiter', L, v, loc=v.loc)
            if isinstance(v, Host) and not isinstance(v, Ref) and free_of(v) & syms:
                return mk('atiter', L, self.freeze(v), loc=self.loc())
            return v

        def wseg(sg):
            if not (sg.free & syms):
                return sg
            if sg.op == 'one':
                return mk('one', wrap(sg.args[0]))
            return mk('star', mk('atiter', L, mk('seq', 'list', self.freeze_segs((sg,)))))

        def went(e):
            if not (e.free & syms):
                return e
            if e.op == 'dset':
                return mk('dset', wrap(e.args[0]), wrap(e.args[1]))
            return mk('dbase', mk('atiter', L, mk('dict', self.freeze_entries((e,)))))
        saved = self.st
        self.st = st
        for oid, o in list(st.heap.items()):
            if L.binder not in getattr(o, 'binders', ()):
                continue
            if isinstance(o, ListObj):
                segs = tuple(wseg(x) for x in o.segs)
                if segs != o.segs:
                    st.heap[oid] = ListObj(o.kind, segs, o.binders)
            elif isinstance(o, DictObj):
                es = tuple(went(x) for x in o.entries)
                if es != o.entries:
                    st.heap[oid] = DictObj(es, o.binders, o.factory)
            elif isinstance(o, InstObj):
                at = {k: wrap(v) for k, v in o.attrs.items()}
                es = tuple(went(x) for x in o.dyn)
                if es != o.dyn or any(at[k] is not o.attrs[k] for k in at):
                    st.heap[oid] = InstObj(o.cls, at, es, o.binders)
        self.st = saved

    def host_result(self, ev, iv, L):
        # a variable holding a function/class/module or an object allocated outside the loop
        if isinstance(ev, (FuncVal, ClassVal, ModuleVal, Ext, BoundMethod)):
            return True
        return False

    def freeze_any(self, seq, kind):
        if kind == 'l':
            return self.freeze_segs(seq)
        return self.freeze_entries(seq)

    def events_free(self, evs):
        f = frozenset()
        for e in evs:
            for g in e.guard:
                f |= free_of(g)
            if e.kind == 'loop':
                f |= e.data[0].free() | self.events_free(e.data[1])
            else:
                f |= free_of(e.data) if isinstance(e.data, (tuple, Node)) else frozenset()
        return f

    def freeze_cell(self, st, cell):
        saved = self.st
        self.st = st
        try:
            v = self.get_cell(st, cell)
            if cell[0] == 'l':
                return mk('seq', v.kind, self.freeze_segs(v.segs))
            if cell[0] == 'd':
                return mk('dict', self.freeze_entries(v.entries))
            if cell[0] == 'D':
                return mk('dict', self.freeze_entries(v))
            return self.freeze(v)
        finally:
            self.st = saved

    def get_cell(self, st, cell):
        k = cell[0]
        if k == 'v':
            return st.frames.get(cell[1], {}).get(cell[2], UNDEF)
        if k == 'a':
            return st.heap[cell[1]].attrs.get(cell[2], UNDEF)
        if k == 'D':
            return st.heap[cell[1]].dyn
        if k == 'k':
            for e in st.heap[cell[1]].entries:
                if e.op == 'dset' and type(e.args[0]) is type(cell[2]) and e.args[0] == cell[2]:
                    return e.args[1]
            return UNDEF
        return st.heap[cell[1]]

    def set_cell(self, st, cell, v):
        k = cell[0]
        if k == 'v':
            st.frames.setdefault(cell[1], {})[cell[2]] = v
        elif k == 'a':
            o = st.heap[cell[1]]
            at = dict(o.attrs)
            at[cell[2]] = v
            st.heap[cell[1]] = InstObj(o.cls, at, o.dyn, o.binders)
        elif k == 'l':
            o = st.heap[cell[1]]
            st.heap[cell[1]] = ListObj(o.kind, [mk('star', v)], o.binders)
        elif k == 'd':
            o = st.heap[cell[1]]
            st.heap[cell[1]] = DictObj([mk('dbase', v)], o.binders, o.factory)
        elif k == 'D':
            o = st.heap[cell[1]]
            st.heap[cell[1]] = InstObj(o.cls, o.attrs, (mk('dbase', v),), o.binders)
        elif k == 'k':
            o = st.heap[cell[1]]
            st.heap[cell[1]] = DictObj([mk('dset', e.args[0], v) if e.op == 'dset' and type(e.args[0]) is type(cell[2]) and e.args[0] == cell[2] else e
                                        for e in o.entries], o.binders, o.factory)

    def const_keys(self, entries):
        if all(e.op == 'dset' and is_const(e.args[0]) for e in entries):
            ks = [(type(e.args[0]).__name__, e.args[0]) for e in entries]
            return ks if len(set(ks)) == len(ks) else None
        return None

    def modified_cells(self, a, b, binder):
        out = []
        for fid, fb in b.frames.items():
            fa = a.frames.get(fid)
            if fa is None:
                continue
            for k, v in fb.items():
                va = fa.get(k, UNDEF)
                if va is not v and not (is_const(v) and is_const(va) and type(v) is type(va) and v == va):
                    if isinstance(v, Ref) and isinstance(va, Ref) and v.oid == va.oid:
                        continue
                    out.append(('v', fid, k))
        for oid, ob in b.heap.items():
            oa = a.heap.get(oid)
            if oa is None or oa is ob:
                continue
            if binder in ob.binders:
                continue
            if isinstance(ob, ListObj):
                if oa.raw != ob.raw or oa.pend != ob.pend:
                    out.append(('l', oid))
            elif isinstance(ob, DictObj):
                if oa.entries != ob.entries:
                    ks = self.const_keys(oa.entries)
                    if ks is not None and ks == self.const_keys(ob.entries):
                        # same constant keys: only the values of some of them change
                        out += [('k', oid, x.args[0]) for x, y in zip(oa.entries, ob.entries) if x is not y]
                    else:
                        out.append(('d', oid))
            else:
                for k in list(ob.attrs) + [k for k in oa.attrs if k not in ob.attrs]:
                    va, vb = oa.attrs.get(k, UNDEF), ob.attrs.get(k, UNDEF)
                    if va is not vb and not self.same(va, vb) and not (is_const(va) and is_const(vb) and type(va) is type(vb) and va == vb):
                        out.append(('a', oid, k))
                if oa.dyn != ob.dyn:
                    out.append(('D', oid))
        return out

    # ------------------------------------------------------------------ iteration
    def iter_segs(self, v):
        if isinstance(v, tuple):
            return [mk('one', x) for x in v]
        if isinstance(v, str):
            return [mk('one', x) for x in v]
        if isinstance(v, RangeVal):
            if all(isinstance(x, int) for x in (v.a, v.b, v.s)) and v.s != 0:
                r = range(v.a, v.b, v.s)
                if len(r) <= 64:
                    return [mk('one', x) for x in r]
            L = self.new_loop('for')
            L.count = self.length(v)
            el = self.binop('add', v.a, self.binop('mul', L.binder, v.s))
            return [mk('segloop', L, (mk('one', el),))]
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListObj):
                segs = o.segs
                if o.kind == 'gen':
                    self.st.heap[v.oid] = ListObj('gen', (), o.binders)
                return list(segs)
            if isinstance(o, DictObj):
                return self.dict_segs(o.entries, 'k')
            if isinstance(o, InstObj):
                f = self.lookup_class(o.cls, '__iter__')
                if f is not None and not isinstance(f, Ext):
                    r = self.call(self.bind(f, v, o.cls), [], {})
                    return self.iter_segs(r)
                g = self.lookup_class(o.cls, '__getitem__')
                return [mk('star', self.opaque('iterate instance'))]
        if isinstance(v, Node):
            if v.op == 'seq' and not self._binders_clash(v):
                return list(v.args[1])
            if v.op == 'dict':
                return self.dict_segs(v.args[0], 'k')
            return [mk('star', v)]
        if isinstance(v, Choice):
            return [mk('star', self.freeze(v))]
        return [mk('star', self.opaque('iterate %r' % (v,)))]

    def dict_segs(self, entries, what):
        # duplicates: later set of the same constant key overrides
        if all(e.op == 'dset' for e in entries):
            d = {}
            order = []
            for e in entries:
                k = e.args[0]
                kk = k if not isinstance(k, Node) else ('N', k.uid)
                try:
                    hash(kk)
                except TypeError:
                    kk = ('id', id(k))
                if isinstance(kk, tuple):
                    kk = _hashable(kk)
                if kk not in d:
                    order.append(kk)
                d[kk] = (k, e.args[1])
            out = []
            for kk in order:
                k, val = d[kk]
                out.append(mk('one', k if what == 'k' else val if what == 'v' else (k, val)))
            if all(is_const(d[kk][0]) for kk in order):
                return out
        node = mk('dict', self.freeze_entries(entries))
        return [mk('star', self.n('dict' + {'k': 'keys', 'v': 'values', 'i': 'items'}[what], node))]

    def concrete_items(self, v):
        """python list of elements when the sequence has statically known length"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, RangeVal):
            if all(isinstance(x, int) for x in (v.a, v.b, v.s)) and v.s != 0 and len(range(v.a, v.b, v.s)) <= 256:
                return list(range(v.a, v.b, v.s))
            return None
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListObj):
                if all(s.op == 'one' for s in o.segs):
                    return [s.args[0] for s in o.segs]
                return None
            if isinstance(o, DictObj):
                segs = self.dict_segs(o.entries, 'k')
                if all(s.op == 'one' for s in segs):
                    return [s.args[0] for s in segs]
                return None
        if isinstance(v, Node):
            if v.op == 'seq' and all(s.op == 'one' for s in v.args[1]):
                return [s.args[0] for s in v.args[1]]
            if v.op == 'ite':
                a, b = self.concrete_items(v.args[1]), self.concrete_items(v.args[2])
                if a is not None and b is not None and len(a) == len(b):
                    return [self.ite(v.args[0], x, y) if not isinstance(x, Host) else Choice(v.args[0], x, y) for x, y in zip(a, b)]
        return None

    def length(self, v):
        items = self.concrete_items(v)
        if items is not None:
            return len(items)
        if isinstance(v, RangeVal):
            if v.s == 1:
                d = self.binop('sub', v.b, v.a)
                return self.n('max', d, 0) if isinstance(d, Node) else max(d, 0)
            return self.n('len', self.freeze(v))
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, InstObj):
                f = self.lookup_class(o.cls, '__len__')
                if f is not None and not isinstance(f, Ext):
                    return self.call(self.bind(f, v, o.cls), [], {})
                return self.opaque('len of instance')
            return self.n('len', self.freeze(v))
        if isinstance(v, Choice):
            return self.ite(v.cond, self.freeze(self.length(v.a)), self.freeze(self.length(v.b)))
        return self.n('len', self.freeze(v))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fid):
        if self.st.dead:
            return UNDEF_NODE
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.opaque('unsupported expression ' + type(e).__name__)
        line = getattr(e, 'lineno', None)
        if line is not None:
            self.cur = (self.cur[0], line, self.cur[2])
        if not self.watching:
            return m(e, fid)
        v = m(e, fid)
        if isinstance(v, Node) and v.op not in ('host', 'atom', 'libexc'):
            for fs, n0 in self.watching:
                if len(fs) < 400:
                    fs.append((self.st.pc[n0:], v))
        return v

    def e_Constant(self, e, fid):
        return e.value

    def e_Name(self, e, fid):
        return self.get_var(fid, e.id)

    def e_Tuple(self, e, fid):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            segs = self.star_segs(e.elts, fid)
            if all(s.op == 'one' for s in segs):
                return tuple(s.args[0] for s in segs)
            return mk('seq', 'tuple', self.freeze_segs(segs), loc=self.loc())
        return tuple(self.ev(x, fid) for x in e.elts)

    def star_segs(self, elts, fid):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs += self.iter_segs(self.ev(x.value, fid))
            else:
                segs.append(mk('one', self.ev(x, fid)))
        return segs

    def e_List(self, e, fid):
        return self.new_list_segs(self.star_segs(e.elts, fid))

    def e_Set(self, e, fid):
        return self.new_list_segs(self.star_segs(e.elts, fid), kind='set')

    def e_Dict(self, e, fid):
        ents = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, fid)
                ents += self.entries_of(d)
            else:
                kk = self.ev(k, fid)
                ents.append(mk('dset', kk, self.ev(v, fid)))
        return self.new_oid(DictObj(ents, self.binders))

    def entries_of(self, d):
        if isinstance(d, Ref) and isinstance(self.obj(d), DictObj):
            return list(self.obj(d).entries)
        if isinstance(d, Node) and d.op == 'dict':
            return list(d.args[0])
        return [mk('dbase', self.freeze(d))]

    def e_JoinedStr(self, e, fid):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value, fid)
                spec = ''
                if p.format_spec is not None:
                    spec = self.e_JoinedStr(p.format_spec, fid)
                if is_const(v) and isinstance(spec, str):
                    try:
                        s = {ord('r'): repr, ord('s'): str, ord('a'): ascii}.get(p.conversion, lambda x: x)(v)
                        parts.append(format(s, spec))
                        continue
                    except Exception:
                        pass
                if spec == '' and p.conversion in (-1, ord('s')):
                    parts.append(self.n('str', self.freeze(v)))
                else:
                    parts.append(self.n('format', self.freeze(v), p.conversion, spec))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        r = None
        for p in parts:
            r = p if r is None else self.binop('add', r, p)
        return r if r is not None else ''

    def e_FormattedValue(self, e, fid):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), fid)

    def e_NamedExpr(self, e, fid):
        v = self.ev(e.value, fid)
        f = fid
        while self.frame_kind(f) == 'comp':
            f = self.parent[f]
        self.set_var(f, e.target.id, v)
        return v

    def frame_kind(self, fid):
        return 'comp' if fid in self._compframes else 'fn'

    _compframes = set()

    def e_Lambda(self, e, fid):
        return self.make_func(e, fid)

    def e_IfExp(self, e, fid):
        c = self.truth(self.ev(e.test, fid))
        return self.branch(c, lambda: self.ev(e.body, fid), lambda: self.ev(e.orelse, fid))

    def e_BoolOp(self, e, fid):
        isand = isinstance(e.op, ast.And)

        def rec(i):
            v = self.ev(e.values[i], fid)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            k = self.cond_known(c)
            if k is not None:
                if isand:
                    return rec(i + 1) if k else (v if not isinstance(c, Node) else v)
                return v if k else rec(i + 1)
            if isand:
                base = self.st
                r = self.branch(c, lambda: rec(i + 1), lambda: v)
                if isinstance(v, Node) and v.op in BOOL_OPS and isinstance(r, Node) and r.op == 'ite':
                    b = r.args[1]
                    if isinstance(b, Node) and b.op in BOOL_OPS or isinstance(b, bool):
                        return self.n('and', c, b) if isinstance(b, Node) else (c if b else False)
                return r
            r = self.branch(c, lambda: v, lambda: rec(i + 1))
            if isinstance(v, Node) and v.op in BOOL_OPS and isinstance(r, Node) and r.op == 'ite':
                b = r.args[2]
                if isinstance(b, Node) and b.op in BOOL_OPS:
                    return self.n('or', c, b)
                if isinstance(b, bool):
                    return c if not b else True
            return r
        return rec(0)

    def e_UnaryOp(self, e, fid):
        v = self.ev(e.operand, fid)
        if isinstance(e.op, ast.Not):
            return neg(self.truth(v))
        if is_const(v) and not isinstance(v, (tuple, str)) and v is not None:
            try:
                return {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v)
            except Exception:
                return self.opaque('unary')
        op = {ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'invert'}[type(e.op)]
        if op == 'pos':
            return v
        return self.n(op, self.freeze(v))

    def e_BinOp(self, e, fid):
        a = self.ev(e.left, fid)
        b = self.ev(e.right, fid)
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if is_const(a) and is_const(b):
            if op == 'mod' and isinstance(a, str):
                try:
                    return a % b
                except Exception:
                    return self.opaque('format')
            try:
                if op == 'pow' and isinstance(b, int) and abs(b) > 512:
                    return self.opaque('huge pow')
                if op == 'lshift' and b > 512:
                    return self.opaque('huge shift')
                return PYOPS[op](a, b)
            except ZeroDivisionError:
                self.raise_exc('ZeroDivisionError', (), implicit=True)
                return self.opaque('division by zero')
            except TypeError:
                self.raise_exc('TypeError', ('unsupported operand',), implicit=True)
                return self.opaque('binop type error')
            except Exception:
                return self.opaque('binop')
        if isinstance(a, Choice) and not isinstance(b, Choice):
            return self.branch(a.cond, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, Choice):
            return self.branch(b.cond, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        if op == 'add':
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            la = isinstance(a, Ref) and isinstance(self.obj(a), ListObj)
            lb = isinstance(b, Ref) and isinstance(self.obj(b), ListObj)
            if la and lb:
                return self.new_list_segs(list(self.obj(a).segs) + list(self.obj(b).segs))
            if la and isinstance(b, Node):
                return self.new_list_segs(list(self.obj(a).segs) + [mk('star', b)]) if not self.surely_array(b) else self.n('add', self.freeze(a), b)
            if isinstance(a, str) and a == '':
                pass
        if op == 'mul':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and not isinstance(y, bool):
                    if isinstance(x, tuple) and y <= 64:
                        return x * y
                    if isinstance(x, Ref) and isinstance(self.obj(x), ListObj) and all(s.op == 'one' for s in self.obj(x).segs) and y <= 64:
                        return self.new_list_segs(list(self.obj(x).segs) * max(y, 0))
                if isinstance(x, (tuple, Ref)) and isinstance(y, Node):
                    if isinstance(x, tuple) or isinstance(self.obj(x), ListObj):
                        node = self.n('mul', self.freeze(x), y)
                        if isinstance(x, tuple):
                            return node
                        return self.new_list_segs([mk('star', node)])
            # light arithmetic identities keep graphs small
            if isinstance(a, Node) and b == 1 and isinstance(b, int) and not isinstance(b, bool):
                return a
            if isinstance(b, Node) and a == 1 and isinstance(a, int) and not isinstance(a, bool):
                return b
        if op == 'add':
            if isinstance(a, Node) and isinstance(b, int) and b == 0 and not isinstance(b, bool):
                return a
            if isinstance(b, Node) and isinstance(a, int) and a == 0 and not isinstance(a, bool):
                return b
        if op == 'sub' and isinstance(a, Node) and isinstance(b, int) and b == 0:
            return a
        if op == 'mod' and isinstance(a, str):
            return self.n('strformat', a, self.freeze(b))
        if isinstance(a, Ref) and isinstance(self.obj(a), InstObj):
            r = self.dunder(a, {'add': '__add__', 'sub': '__sub__', 'mul': '__mul__', 'div': '__truediv__'}.get(op), [b])
            if r is not None:
                return r
        return self.n(op, self.freeze(a), self.freeze(b))

    def dunder(self, ref, name, args):
        if name is None:
            return None
        o = self.obj(ref)
        f = self.lookup_class(o.cls, name)
        if f is None or isinstance(f, Ext):
            return None
        return self.call(self.bind(f, ref, o.cls), args, {})

    def e_Compare(self, e, fid):
        left = self.ev(e.left, fid)
        res = None
        for op, right in zip(e.ops, e.comparators):
            r = self.ev(right, fid)
            c = self.compare(CMPOPS[type(op)], left, r)
            res = c if res is None else (self.n('and', self.truth(res), self.truth(c)) if isinstance(self.truth(res), Node) and isinstance(self.truth(c), Node)
                                         else conj([self.truth(res), self.truth(c)]))
            left = r
        return res

    def compare(self, op, a, b):
        if op in ('is', 'isnot'):
            r = self.compare_is(a, b)
            if isinstance(r, bool):
                return r if op == 'is' else not r
            return r if op == 'is' else neg(r)
        if op in ('in', 'notin') and isinstance(b, Ext) and b.name == 'os.environ':
            from .builtin_calls import call_ext
            r = call_ext(self, 'os.environ.__contains__', [a], {})
            return r if op == 'in' else neg(r)
        if op in ('in', 'notin'):
            r = self.contains_val(a, b)
            if isinstance(r, bool):
                return r if op == 'in' else not r
            return r if op == 'in' else neg(r)
        if isinstance(a, Choice):
            return self.branch(a.cond, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
        if isinstance(b, Choice):
            return self.branch(b.cond, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        if is_const(a) and is_const(b):
            try:
                return PYOPS[op](a, b)
            except TypeError:
                self.raise_exc('TypeError', ('comparison',), implicit=True)
                return self.opaque('compare')
        if op in ('eq', 'ne'):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return op == 'ne'
                r = conj([self.truth(self.compare('eq', x, y)) for x, y in zip(a, b)])
                return r if op == 'eq' else neg(r)
            if isinstance(a, Host) and isinstance(b, Host) and not isinstance(a, (Ref, RangeVal)) and not isinstance(b, (Ref, RangeVal)):
                if a is b:
                    return op == 'eq'
                if isinstance(a, Ext) and isinstance(b, Ext):
                    return self.n(op, mk('host', a), mk('host', b))
                if isinstance(a, (ClassVal, FuncVal)) or isinstance(b, (ClassVal, FuncVal)):
                    return op == 'ne'
            if isinstance(a, Host) and (b is None or isinstance(b, (str, int, float))) and not isinstance(a, (Ref, Ext)):
                return op == 'ne'
        fa, fb = self.freeze(a), self.freeze(b)
        if op == 'gt':
            return self.n('lt', fb, fa)
        if op == 'ge':
            return self.n('le', fb, fa)
        return self.n(op, fa, fb)

    def compare_is(self, a, b):
        if isinstance(a, Choice):
            return self.branch(a.cond, lambda: self.compare_is(a.a, b), lambda: self.compare_is(a.b, b))
        if isinstance(b, Choice):
            return self.branch(b.cond, lambda: self.compare_is(a, b.a), lambda: self.compare_is(a, b.b))
        if isinstance(a, Node) or isinstance(b, Node):
            if isinstance(a, Node) and isinstance(b, Node) and a is b:
                return True
            if isinstance(b, Host) and not isinstance(b, Ref):
                return self.n('is', self.freeze(a), mk('host', b))
            return self.n('is', self.freeze(a), self.freeze(b))
        if is_const(a) and is_const(b):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                return a is b
            return type(a) is type(b) and a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.oid == b.oid
        return a is b

    def contains_val(self, a, b):
        if isinstance(b, Choice):
            return self.branch(b.cond, lambda: self.contains_val(a, b.a), lambda: self.contains_val(a, b.b))
        if isinstance(a, Choice):
            return self.branch(a.cond, lambda: self.contains_val(a.a, b), lambda: self.contains_val(a.b, b))
        if isinstance(b, Ref) and isinstance(self.obj(b), DictObj):
            o = self.obj(b)
            if is_const(a):
                r = self.dict_find(o.entries, a)
                if r[0] == 'yes':
                    return True
                if r[0] == 'no':
                    return False
            return self.n('in', self.freeze(a), self.freeze(b))
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        items = self.concrete_items(b)
        if items is not None:
            if is_const(a) and all(is_const(x) for x in items):
                return any(type(a) is type(x) and a == x or a == x for x in items)
            r = disj([self.truth(self.compare('eq', a, x)) for x in items])
            return r
        return self.n('in', self.freeze(a), self.freeze(b))

    def dict_find(self, entries, key):
        """('yes', value) | ('no',) | ('maybe',)"""
        for idx in range(len(entries) - 1, -1, -1):
            e = entries[idx]
            if e.op == 'dset':
                k = e.args[0]
                if is_const(k) or (isinstance(k, tuple) and isinstance(key, tuple)):
                    if type(k) is type(key) and k == key or (is_const(k) and k == key):
                        return ('yes', e.args[1])
                    if not is_const(k):
                        return ('maybe',)
                    continue
                if isinstance(k, Node) and k is key:
                    return ('yes', e.args[1])
                if isinstance(k, Host):
                    if k is key:
                        return ('yes', e.args[1])
                    continue
                return ('maybe',)
            if e.op == 'dite':
                a = self.dict_find(e.args[1], key)
                b = self.dict_find(e.args[2], key)
                if a[0] == 'no' and b[0] == 'no':
                    continue
                if a[0] == 'maybe' or b[0] == 'maybe':
                    return ('maybe',)
                rest = self.dict_find(entries[:idx], key)
                if a[0] == 'no':
                    a = rest
                if b[0] == 'no':
                    b = rest
                if a[0] == 'yes' and b[0] == 'yes':
                    return ('yes', self.merge_val(e.args[0], a[1], b[1], self.st, self.st, self.st))
                return ('maybe',)
            return ('maybe',)
        return ('no',)

    # ---- subscripts
    def ev_index(self, s, fid):
        if isinstance(s, ast.Slice):
            return SliceVal(self.ev(s.lower, fid) if s.lower else None,
                            self.ev(s.upper, fid) if s.upper else None,
                            self.ev(s.step, fid) if s.step else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, fid) for x in s.elts)
        return self.ev(s, fid)

    e_Slice = ev_index

    def e_Subscript(self, e, fid):
        base = self.ev(e.value, fid)
        key = self.ev_index(e.slice, fid)
        return self.getitem(base, key)

    def getitem(self, base, key):
        if self.st.dead:
            return UNDEF_NODE
        if isinstance(base, Choice):
            return self.branch(base.cond, lambda: self.getitem(base.a, key), lambda: self.getitem(base.b, key))
        if isinstance(key, Choice):
            return self.branch(key.cond, lambda: self.getitem(base, key.a), lambda: self.getitem(base, key.b))
        if isinstance(base, Ref):
            o = self.obj(base)
            if isinstance(o, DictObj):
                if isinstance(key, Node) and key.op == 'ite' and is_const(key.args[1]) and is_const(key.args[2]):
                    return self.branch(key.args[0], lambda: self.getitem(base, key.args[1]), lambda: self.getitem(base, key.args[2]))
                fk = key if is_const(key) or isinstance(key, Host) else self.freeze(key)
                r = self.dict_find(o.entries, fk)
                if r[0] == 'yes':
                    return r[1]
                if r[0] == 'no':
                    if o.factory is not None:
                        v = self.call(o.factory, [], {})
                        self.setitem(base, key, v)
                        return v
                    if is_const(fk):
                        self.raise_exc('KeyError', (fk,), implicit=True)
                        return self.opaque('missing key %r' % (fk,))
                return self.n('getitem', self.freeze(base), self.freeze(key))
            if isinstance(o, ListObj):
                if o.pend is not None and o.pend[0] is key:
                    return o.pend[1]
                return self.seq_getitem(o.segs, key, base, o.kind)
            if isinstance(o, InstObj):
                r = self.dunder(base, '__getitem__', [key])
                if r is not None:
                    return r
                return self.n('getitem', self.freeze(base), self.freeze(key))
        if isinstance(base, (tuple, str)):
            if isinstance(key, int) and not isinstance(key, bool):
                try:
                    return base[key]
                except IndexError:
                    self.raise_exc('IndexError', (), implicit=True)
                    return self.opaque('index')
            if isinstance(key, bool):
                return base[key]
            if isinstance(key, SliceVal) and all(x is None or isinstance(x, int) for x in (key.a, key.b, key.c)):
                return base[slice(key.a, key.b, key.c)]
            if isinstance(base, tuple) and isinstance(key, Node) and any(isinstance(x, Host) for x in base):
                return self.select(base, key)
            return self.n('getitem', self.freeze(base), self.freeze(key))
        if isinstance(base, Ext) and base.name == 'os.environ':
            from .builtin_calls import call_ext
            return call_ext(self, 'os.environ.__getitem__', [key], {})
        if isinstance(base, RangeVal):
            if isinstance(key, int) and key >= 0:
                return self.binop('add', base.a, self.binop('mul', key, base.s))
        if isinstance(base, Node):
            if base.op == 'seq':
                return self.seq_getitem(base.args[1], key, base, base.args[0])
            if base.op == 'dict' and (is_const(key)):
                r = self.dict_find(base.args[0], key)
                if r[0] == 'yes':
                    return r[1]
            if base.op == 'ite' and (is_const(key)):
                for x in base.args[1:]:
                    if isinstance(x, tuple) or (isinstance(x, Node) and x.op in ('seq', 'dict', 'ite')):
                        a = self.getitem(base.args[1], key)
                        b = self.getitem(base.args[2], key)
                        return self.merge_val(base.args[0], a, b, self.st, self.st, self.st)
            return self.n('getitem', base, self.freeze(key))
        if isinstance(base, ClassVal):
            return base
        return self.n('getitem', self.freeze(base), self.freeze(key))

    def select(self, items, key):
        v = items[-1]
        for i in range(len(items) - 2, -1, -1):
            v = self.merge_val(self.truth(self.compare('eq', key, i)), items[i], v, self.st, self.st, self.st)
        return v

    def seq_getitem(self, segs, key, base, kind):
        if isinstance(key, bool):
            key = int(key)
        if isinstance(key, int):
            if all(s.op == 'one' for s in segs):
                try:
                    return segs[key].args[0]
                except IndexError:
                    self.raise_exc('IndexError', (), implicit=True)
                    return self.opaque('list index')
            if key >= 0:
                for i, s in enumerate(segs):
                    if s.op != 'one':
                        break
                    if i == key:
                        return s.args[0]
            else:
                for i, s in enumerate(reversed(segs)):
                    if s.op != 'one':
                        break
                    if i == -key - 1:
                        return s.args[0]
        if isinstance(key, SliceVal) and all(s.op == 'one' for s in segs) and all(x is None or isinstance(x, int) for x in (key.a, key.b, key.c)):
            items = [s.args[0] for s in segs][slice(key.a, key.b, key.c)]
            if kind == 'tuple':
                return tuple(items)
            return self.new_list(items)
        if isinstance(key, SliceVal) and all(s.op == 'one' for s in segs) and kind == 'list' and key.a is None and key.c is None and isinstance(key.b, Node) and len(segs) <= 6:
            # prefix selection by a symbolic bound, e.g. filters[:1+max_order]
            return self.new_list_segs([mk('star', self.n('getitem', self.freeze(base), self.freeze(key)))])
        # element i of a single uniform loop: substitute only when the binder is the same
        if isinstance(key, SliceVal) and not isinstance(base, Node):
            return self.new_list_segs([mk('star', self.n('getitem', self.freeze(base), self.freeze(key)))])
        if isinstance(key, Node) and all(s.op == 'one' for s in segs) and segs and any(isinstance(s.args[0], Host) for s in segs) and len(segs) <= 12:
            return self.select([s.args[0] for s in segs], key)
        return self.n('getitem', self.freeze(base), self.freeze(key))

    def setitem(self, base, key, v):
        if self.st.dead:
            return
        if isinstance(base, Choice):
            self.branch(base.cond, lambda: self.setitem(base.a, key, v), lambda: self.setitem(base.b, key, v))
            return
        if isinstance(base, Ref):
            o = self.obj(base)
            self.note_mutation(base, 'item store')
            o = self.obj(base)
            if isinstance(o, DictObj):
                k = key if is_const(key) or isinstance(key, Host) else self.freeze(key)
                ents = o.entries
                if is_const(k) and all(e.op == 'dset' and is_const(e.args[0]) for e in ents):
                    out, hit = [], False
                    for e in ents:
                        if e.args[0] == k and type(e.args[0]) is type(k):
                            out.append(mk('dset', k, v))
                            hit = True
                        else:
                            out.append(e)
                    if not hit:
                        out.append(mk('dset', k, v))
                    ents = tuple(out)
                else:
                    ents = ents + (mk('dset', k, v),)
                self.st.heap[base.oid] = DictObj(ents, o.binders, o.factory)
                return
            if isinstance(o, ListObj):
                if isinstance(key, int) and all(s.op == 'one' for s in o.segs) and -len(o.segs) <= key < len(o.segs):
                    segs = list(o.segs)
                    segs[key] = mk('one', v)
                    self.st.heap[base.oid] = ListObj(o.kind, segs, o.binders)
                    return
                # x[i] = f(x[i]) style updates inside a loop over the same sequence
                if isinstance(key, Node) and o.kind == 'list':
                    if o.pend is not None and o.pend[0] is not key:
                        o = self.flush(o, self.st)
                    self.st.heap[base.oid] = ListObj(o.kind, o.raw, o.binders, (key, v))
                    return
                self.mark_shadow(v)
                node = self.n('setitem', self.freeze(base), self.freeze(key), self.freeze(v))
                self.st.heap[base.oid] = ListObj(o.kind, [mk('star', node)], o.binders)
                return
            if isinstance(o, InstObj):
                if self.dunder(base, '__setitem__', [key, v]) is None:
                    self.event('unsupported', 'setitem on instance')
                return
        if isinstance(base, Node):
            self.event('inplace', (base, 'item store'))
            new = self.n('setitem', base, self.freeze(key), self.freeze(v))
            self.replace_everywhere(base, new)
            return
        if isinstance(base, tuple):
            self.raise_exc('TypeError', ('tuple item assignment',), implicit=True)

    def view_chain_root(self, n):
        """(root, [steps]) where n is obtained from root by must-alias access steps"""
        steps = []
        while isinstance(n, Node):
            if n.op == 'getitem':
                steps.append(('getitem', n.args[1]))
                n = n.args[0]
            elif n.op == 'mcall' and n.args[1] in ('view', 'reshape', 'squeeze', 'unsqueeze', 'transpose', 'permute', 'ravel'):
                steps.append(('mcall', n.args[1], n.args[2], n.args[3]))
                n = n.args[0]
            elif n.op == 'attr' and n.args[1] in ('real', 'imag', 'T'):
                steps.append(('attr', n.args[1]))
                n = n.args[0]
            elif n.op == 'call' and n.args[0] in VIEWCALLS and n.args[1]:
                steps.append(('call', n.args[0], n.args[1][1:], n.args[2]))
                n = n.args[1][0]
            else:
                break
        return n, list(reversed(steps))

    def mutable(self, n, depth=0):
        """False when n is an array of a framework without in-place update"""
        if not isinstance(n, Node) or depth > 12:
            return True
        if n.op == 'atom':
            return n.args[1] != 'array' or self.fw in ('np', 'torch')
        if n.op == 'call':
            return n.args[0].split('.')[0] not in ('tensorflow', 'jax')
        if n.op in ('mcall', 'getitem', 'attr', 'setitem', 'setview', 'neg'):
            return self.mutable(n.args[0], depth + 1)
        if n.op in ('add', 'sub', 'mul', 'div', 'pow'):
            return all(self.mutable(x, depth + 1) for x in n.args)
        if n.op == 'ite':
            return self.mutable(n.args[1], depth + 1) and self.mutable(n.args[2], depth + 1)
        return True

    def rebuild(self, root, steps):
        n = root
        for s in steps:
            if s[0] == 'getitem':
                n = mk('getitem', n, s[1], loc=self.loc())
            elif s[0] == 'mcall':
                n = mk('mcall', n, s[1], s[2], s[3], loc=self.loc())
            elif s[0] == 'call':
                n = mk('call', s[1], (n,) + s[2], s[3], loc=self.loc())
            else:
                n = mk('attr', n, s[1], loc=self.loc())
        return n

    def replace_everywhere(self, old, new):
        """old denotes a mutable value that has just been updated in place to `new`"""
        root, steps = self.view_chain_root(old)
        if steps:
            newroot = self.n('setview', root, tuple(steps_key(steps)), new)
        else:
            newroot = new
        if not isinstance(root, Node):
            return
        if self.loop_depth:
            self.inplace_log.append(root)
        if root.op in ('seq', 'dict'):
            # a frozen copy of a heap object is being mutated: the original is out of sight
            self.event('undecided', ('update of an untracked container element',))

        memo = {}

        def repl(v, depth=0):
            if isinstance(v, Node):
                if v in memo:
                    return memo[v]
                r, st = self.view_chain_root(v)
                out = v
                if r is root:
                    if v is old:
                        out = new if not steps else self.rebuild(newroot, st)
                    else:
                        out = self.rebuild(newroot, st)
                memo[v] = out
                return out
            if isinstance(v, tuple) and depth < 4 and any(isinstance(x, (Node, tuple)) for x in v):
                t = tuple(repl(x, depth + 1) for x in v)
                return t if any(x is not y for x, y in zip(t, v)) else v
            return v
        for fid, fr in self.st.frames.items():
            for k, v in fr.items():
                if isinstance(v, (Node, tuple)):
                    nv = repl(v)
                    if nv is not v:
                        fr[k] = nv
        for oid, o in list(self.st.heap.items()):
            if isinstance(o, InstObj):
                ch = {}
                for k, v in o.attrs.items():
                    if isinstance(v, (Node, tuple)):
                        nv = repl(v)
                        if nv is not v:
                            ch[k] = nv
                if ch:
                    at = dict(o.attrs)
                    at.update(ch)
                    self.st.heap[oid] = InstObj(o.cls, at, o.dyn, o.binders)
            elif isinstance(o, ListObj):
                segs = []
                hit = False
                for s in o.segs:
                    if s.op == 'one' and isinstance(s.args[0], (Node, tuple)):
                        nv = repl(s.args[0])
                        if nv is not s.args[0]:
                            hit = True
                            s = mk('one', nv)
                    segs.append(s)
                if hit:
                    self.st.heap[oid] = ListObj(o.kind, segs, o.binders)
            elif isinstance(o, DictObj):
                ents = []
                hit = False
                for e in o.entries:
                    if e.op == 'dset' and isinstance(e.args[1], (Node, tuple)):
                        nv = repl(e.args[1])
                        if nv is not e.args[1]:
                            hit = True
                            e = mk('dset', e.args[0], nv)
                    ents.append(e)
                if hit:
                    self.st.heap[oid] = DictObj(ents, o.binders, o.factory)

    # ---- array-ness
    def surely_array(self, n, depth=0):
        if not isinstance(n, Node) or depth > 12:
            return False
        if n.op in ('add', 'sub', 'mul', 'div', 'pow', 'neg'):
            return any(self.surely_array(x, depth + 1) for x in n.args)
        if n.op == 'call':
            nm = n.args[0]
            top = nm.split('.')[0]
            if top in ('numpy', 'torch', 'tensorflow', 'scipy', 'jax'):
                return nm.split('.')[-1] not in SCALAR_FUNCS
        if n.op == 'mcall':
            return self.surely_array(n.args[0], depth + 1) and n.args[1] not in ('item', 'numel', 'nelement', 'dim', 'size', 'is_contiguous', 'sum', 'max', 'min', 'mean', 'all', 'any')
        if n.op == 'atom':
            return n.args[1] == 'array'
        if n.op == 'getitem':
            return False
        if n.op == 'attr':
            return n.args[1] in ('T', 'real', 'imag') and self.surely_array(n.args[0], depth + 1)
        if n.op in ('setitem', 'setview'):
            return True
        if n.op == 'ite':
            return self.surely_array(n.args[1], depth + 1) and self.surely_array(n.args[2], depth + 1)
        return False

    def plain_scalar(self, n):
        return n.op == 'atom' and n.args[1] in ('int', 'str', 'float', 'bool') or n.op in ('binder', 'idx')

    def maybe_array(self, n):
        if n.op in ('len', 'max', 'min', 'floordiv', 'eq', 'lt', 'le', 'str', 'bound', 'truth', 'carry', 'loopout'):
            return False
        if n.op == 'call' and (n.args[0].startswith('math.') or n.args[0].startswith('builtins.')):
            return False
        return True

    # ---- attributes
    def e_Attribute(self, e, fid):
        return self.getattr(self.ev(e.value, fid), e.attr)

    def getattr(self, v, name, default=UNDEF):
        if self.st.dead:
            return UNDEF_NODE
        if isinstance(v, Choice):
            return self.branch(v.cond, lambda: self.getattr(v.a, name, default), lambda: self.getattr(v.b, name, default))
        if v is UNDEF:
            self.raise_exc('UnboundLocalError', (name,), implicit=True)
            return UNDEF_NODE
        if isinstance(v, ModuleVal):
            fr = self.st.frames.get(v.fid, {})
            if name in fr:
                return fr[name]
            sub = self.project.modules.get(v.name + '.' + name)
            if sub is not None:
                return self.load_module(sub)
            if default is not UNDEF:
                return default
            self.raise_exc('AttributeError', ('module %s has no attribute %s' % (v.name, name),), implicit=True)
            return self.opaque('module attribute ' + name)
        if isinstance(v, Ext):
            return self.ext(v.name + '.' + name)
        if isinstance(v, ClassVal):
            return self.class_getattr(v, name, default)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, InstObj):
                return self.inst_getattr(v, o, name, default)
            return BoundBuiltin(v, name)
        if isinstance(v, SuperVal):
            return self.super_getattr(v, name)
        if isinstance(v, ExcVal):
            if name == 'args':
                return tuple(v.args)
            return BoundBuiltin(v, name)
        if isinstance(v, FuncVal):
            if name in v.extra:
                return v.extra[name]
            if name == '__name__':
                return v.name
            if name == '__doc__':
                return ast.get_docstring(v.node) if not isinstance(v.node, ast.Lambda) else None
            return BoundBuiltin(v, name)
        if isinstance(v, BoundMethod):
            if name == '__self__':
                return v.selfv
            if name == '__func__':
                return v.func
            return self.getattr(v.func, name, default)
        if isinstance(v, PropertyVal):
            return BoundBuiltin(v, name)
        if isinstance(v, Node):
            if v.op == 'host':
                return self.getattr(v.args[0], name, default)
            if v.op == 'ite' and any(isinstance(x, Node) and x.op == 'host' for x in v.args[1:]):
                return self.branch(v.args[0], lambda: self.getattr(v.args[1], name, default), lambda: self.getattr(v.args[2], name, default))
            return self.n('attr', v, name)
        if isinstance(v, (SliceVal,)):
            return {'start': v.a, 'stop': v.b, 'step': v.c}.get(name, self.opaque('slice attr'))
        if isinstance(v, RangeVal):
            return {'start': v.a, 'stop': v.b, 'step': v.s}.get(name, self.opaque('range attr'))
        if isinstance(v, (int, float)) and name in ('real', 'imag'):
            return getattr(v, name)
        return BoundBuiltin(v, name)

    def mro(self, cls):
        if not isinstance(cls, ClassVal):
            return [cls]
        if cls.mro is None:
            seqs = []
            for b in cls.bases:
                seqs.append(list(self.mro(b)) if isinstance(b, ClassVal) else [b])
            seqs.append(list(cls.bases))
            res = [cls]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                res.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
                seqs = [s for s in seqs if s]
            cls.mro = res
        return cls.mro

    def lookup_class(self, cls, name, after=None):
        mro = self.mro(cls)
        start = 0
        if after is not None:
            start = mro.index(after) + 1 if after in mro else 0
        for c in mro[start:]:
            if isinstance(c, ClassVal):
                if name in c.attrs:
                    return c.attrs[name]
            elif isinstance(c, Ext):
                if c.name == 'builtins.object':
                    continue
                if self.ext_base_has(c, name):
                    return ExtMember(c.name + '.' + name)
        return None

    EXT_MEMBERS = {
        'torch.nn.Module': {'__init__', 'register_buffer', 'register_parameter', 'named_buffers', 'buffers', 'parameters', 'named_parameters',
                            'to', 'cuda', 'cpu', 'float', 'double', 'half', 'train', 'eval', 'state_dict', 'load_state_dict', '__call__',
                            'forward', 'apply', 'modules', 'children', 'zero_grad', 'get_buffer', 'add_module', 'training', '_buffers', '_parameters', 'register_module', 'type', 'named_modules'},
        'tensorflow.Module': {'__init__', 'name', 'name_scope', 'with_name_scope', 'trainable_variables', 'variables', 'submodules'},
        'tensorflow.keras.layers.Layer': {'__init__', 'build', 'call', '__call__', 'compute_output_shape', 'get_config', 'from_config', 'add_weight', 'weights', 'name', 'dtype', 'built', 'trainable', 'trainable_weights'},
        'sklearn.base.BaseEstimator': {'get_params', 'set_params', '__repr__', '_get_param_names', '__getstate__', '__setstate__', '__sklearn_tags__'},
        'sklearn.base.TransformerMixin': {'fit_transform', 'set_output'},
        'torch.autograd.Function': {'apply', 'forward', 'backward', 'setup_context', 'vmap', 'jvp'},
    }

    def ext_base_has(self, c, name):
        m = self.EXT_MEMBERS.get(c.name)
        if m is None:
            return not name.startswith('_doc') and name not in ('frontend_name', 'average', 'scattering')
        return name in m

    def bind(self, f, selfv, cls):
        if isinstance(f, StaticM):
            return f.f
        if isinstance(f, ClassM):
            return BoundMethod(f.f, cls)
        if isinstance(f, FuncVal):
            return BoundMethod(f, selfv)
        if isinstance(f, PropertyVal):
            return self.call(BoundMethod(f.fget, selfv), [], {})
        if isinstance(f, ExtMember):
            return BoundBuiltin(selfv, '@' + f.name)
        return f

    def class_getattr(self, cls, name, default=UNDEF):
        if name == '__name__' or name == '__qualname__':
            return cls.name
        if name == '__module__':
            return cls.module.name
        if name == '__mro__':
            return tuple(self.mro(cls))
        if name == '__bases__':
            return tuple(cls.bases)
        if name == '__dict__':
            return self.new_dict([(k, v) for k, v in cls.attrs.items()])
        f = self.lookup_class(cls, name)
        if f is None:
            if default is not UNDEF:
                return default
            if name in ('__init__', '__new__', '__subclasses__', '__class__', 'mro'):
                return Ext('builtins.object.' + name)
            self.raise_exc('AttributeError', ('class %s has no attribute %s' % (cls.name, name),), implicit=True)
            return self.opaque('class attribute %s.%s' % (cls.name, name))
        if isinstance(f, StaticM):
            return f.f
        if isinstance(f, ClassM):
            return BoundMethod(f.f, cls)
        if isinstance(f, ExtMember):
            return BoundBuiltin(cls, '@' + f.name)
        return f

    def inst_getattr(self, ref, o, name, default=UNDEF):
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            return self.new_dict([(k, v) for k, v in o.attrs.items() if v is not UNDEF])
        f = self.lookup_class(o.cls, name) if isinstance(o.cls, ClassVal) else None
        if isinstance(f, PropertyVal):
            if f.cached and name in o.attrs:
                return o.attrs[name]
            r = self.call(BoundMethod(f.fget, ref), [], {})
            if f.cached:
                self.setattr(ref, name, r)
            return r
        if name in o.attrs:
            v = o.attrs[name]
            v = self.drop_undef(v, name)
            return v
        if name == 'backend' or True:
            for e in reversed(o.dyn):
                if e.op == 'dset' and is_const(e.args[0]) and e.args[0] == name:
                    return e.args[1]
        if f is not None:
            return self.bind(f, ref, o.cls)
        if not isinstance(o.cls, ClassVal):
            return BoundBuiltin(ref, '@' + getattr(o.cls, 'name', '?') + '.' + name)
        ga = self.lookup_class(o.cls, '__getattr__')
        if ga is not None and not isinstance(ga, Ext):
            return self.call(self.bind(ga, ref, o.cls), [name], {})
        if default is not UNDEF:
            return default
        if o.dyn:
            return self.n('getitem', mk('dict', self.freeze_entries(o.dyn)), name)
        self.raise_exc('AttributeError', ('%s has no attribute %s' % (o.cls.name, name),), implicit=True)
        return self.opaque('attribute %s.%s' % (o.cls.name, name))

    def super_getattr(self, sv, name):
        selfv = sv.selfv
        cls = selfv if isinstance(selfv, ClassVal) else (self.obj(selfv).cls if isinstance(selfv, Ref) else None)
        if cls is None:
            return self.opaque('super of unknown')
        f = self.lookup_class(cls, name, after=sv.cls)
        if f is None:
            if name == '__init__':
                return Ext('builtins.object.__init__')
            self.raise_exc('AttributeError', ('super of %s has no attribute %s' % (sv.cls.name, name),), implicit=True)
            return self.opaque('super attribute ' + name)
        return self.bind(f, selfv, cls)

    def setattr(self, base, name, v):
        if self.st.dead:
            return
        if isinstance(base, Choice):
            self.branch(base.cond, lambda: self.setattr(base.a, name, v), lambda: self.setattr(base.b, name, v))
            return
        if isinstance(base, Ref):
            o = self.obj(base)
            if isinstance(o, InstObj):
                self.note_mutation(base, 'attribute ' + name)
                o = self.obj(base)
                if name == '__class__':
                    self.st.heap[base.oid] = InstObj(v if isinstance(v, ClassVal) else o.cls, o.attrs, o.dyn, o.binders)
                    return
                f = self.lookup_class(o.cls, name) if isinstance(o.cls, ClassVal) else None
                if isinstance(f, PropertyVal) and not f.cached:
                    if f.fset is None:
                        self.raise_exc('AttributeError', ("can't set attribute %s" % name,), implicit=True)
                        return
                    self.call(BoundMethod(f.fset, base), [v], {})
                    return
                at = dict(o.attrs)
                at[name] = v
                self.st.heap[base.oid] = InstObj(o.cls, at, o.dyn, o.binders)
                return
        if isinstance(base, ClassVal):
            if not self.in_load:
                self.event('classwrite', (base.name, name))
                self.classsaved.setdefault(base, dict(base.attrs))
                if self.interf is not None and not self.interf.off:
                    v = self.interf.wrap(v, self.loc())
            base.attrs[name] = v
            if isinstance(v, FuncVal) and v.cls is None:
                v.cls = None
            return
        if isinstance(base, FuncVal):
            base.extra[name] = v
            return
        if isinstance(base, BoundMethod):
            return
        if isinstance(base, ModuleVal):
            self.event('globalwrite', (base.name, name))
            if self.interf is not None and not self.interf.off:
                v = self.interf.wrap(v, self.loc())
            self.st.frames[base.fid][name] = v
            return
        if isinstance(base, Ext):
            self.event('globalwrite', (base.name, name))
            return
        if isinstance(base, Node):
            self.event('inplace', (base, 'attribute ' + name))
            if base.op == 'ctxobj':
                pass
            new = self.n('setattr', base, name, self.freeze(v))
            self.replace_everywhere(base, new)

    def note_mutation(self, ref, how):
        o = self.obj(ref)
        if ref.oid in self.shadow:
            self.event('undecided', ('update of an aliased container',))
        self.st.events.append(Event('mutate', self.st.pc, (ref, how), self.loc()))

    # ---- comprehensions
    def comp(self, e, fid, emit):
        cf = self.new_frame(fid, self.frame_mod[fid])
        Interp._compframes.add(cf)

        def rec(i):
            if i == len(e.generators):
                emit(cf)
                return
            g = e.generators[i]
            it = self.ev(g.iter, cf)

            def body(elem):
                self.assign(g.target, elem, cf)

                def conds(k):
                    if k == len(g.ifs):
                        rec(i + 1)
                        return
                    c = self.truth(self.ev(g.ifs[k], cf))
                    self.branch(c, lambda: conds(k + 1), lambda: None)
                conds(0)
            self.run_loop(it, body, cf)
        rec(0)

    def e_ListComp(self, e, fid, kind='list'):
        out = self.new_list((), kind)
        self.comp(e, fid, lambda cf: self.quiet_append(out, self.ev(e.elt, cf)))
        return out

    def quiet_append(self, ref, v):
        o = self.obj(ref)
        self.st.heap[ref.oid] = ListObj(o.kind, o.segs + (mk('one', v),), o.binders)

    def e_GeneratorExp(self, e, fid):
        return self.e_ListComp(e, fid, 'gen')

    def e_SetComp(self, e, fid):
        return self.e_ListComp(e, fid, 'set')

    def e_DictComp(self, e, fid):
        out = self.new_dict()

        def emit(cf):
            k = self.ev(e.key, cf)
            v = self.ev(e.value, cf)
            o = self.obj(out)
            k = k if is_const(k) or isinstance(k, Host) else self.freeze(k)
            self.st.heap[out.oid] = DictObj(o.entries + (mk('dset', k, v),), o.binders)
        self.comp(e, fid, emit)
        return out

    def e_Starred(self, e, fid):
        return self.ev(e.value, fid)

    def e_Yield(self, e, fid):
        v = self.ev(e.value, fid) if e.value is not None else None
        ctx = self.fn_stack[-1]
        if ctx.yield_ref is not None:
            self.quiet_append(ctx.yield_ref, v)
        return None

    def e_YieldFrom(self, e, fid):
        v = self.ev(e.value, fid)
        ctx = self.fn_stack[-1]
        if ctx.yield_ref is not None:
            for s in self.iter_segs(v):
                o = self.obj(ctx.yield_ref)
                self.st.heap[ctx.yield_ref.oid] = ListObj(o.kind, o.segs + (s,), o.binders)
        return None

    def e_Await(self, e, fid):
        return self.ev(e.value, fid)

    # ---- calls
    def e_Call(self, e, fid):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and self.find_frame(fid, 'super') is None:
            return self.do_super(e, fid)
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'vars') and not e.args and self.find_frame(fid, e.func.id) is None:
            return self.new_dict([(k, v) for k, v in self.st.frames[fid].items() if not k.startswith('$') and v is not UNDEF])
        if isinstance(e.func, ast.Name) and e.func.id == 'vars' and len(e.args) == 1 and self.find_frame(fid, 'vars') is None:
            return self.getattr(self.ev(e.args[0], fid), '__dict__')
        if isinstance(e.func, ast.Name) and e.func.id == 'globals' and not e.args:
            return self.n('globals')
        f = self.ev(e.func, fid)
        args, kwargs = [], {}
        extra_kw = None
        star_unknown = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fid)
                items = self.concrete_items(v)
                if items is None:
                    star_unknown = True
                    args.append(self.n('starargs', self.freeze(v)))
                else:
                    args += items
            else:
                args.append(self.ev(a, fid))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fid)
                ents = self.entries_of(d)
                for en in ents:
                    if en.op == 'dset' and isinstance(en.args[0], str):
                        kwargs[en.args[0]] = en.args[1]
                    else:
                        extra_kw = self.freeze(d)
            else:
                kwargs[k.arg] = self.ev(k.value, fid)
        if extra_kw is not None:
            kwargs['**'] = extra_kw
        self.at(e)
        if self.st.dead:
            return UNDEF_NODE
        return self.call(f, args, kwargs)

    def do_super(self, e, fid):
        args = [self.ev(a, fid) for a in e.args]
        if len(args) == 2:
            return SuperVal(args[0], args[1])
        # zero-argument form: the enclosing function's class and first argument
        for ctx in reversed(self.fn_stack):
            if ctx.func is not None and ctx.func.cls is not None and ctx.first_arg is not None:
                return SuperVal(ctx.func.cls, ctx.first_arg)
        return self.opaque('super()')

    def call(self, f, args, kwargs):
        if self.st.dead:
            return UNDEF_NODE
        if isinstance(f, Choice):
            return self.branch(f.cond, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.selfv] + list(args), kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.f, list(f.args) + list(args), kw)
        if isinstance(f, Ext):
            from .builtin_calls import call_ext
            return call_ext(self, f.name, args, kwargs)
        if isinstance(f, BoundBuiltin):
            from .builtin_calls import call_bound
            return call_bound(self, f, args, kwargs)
        if isinstance(f, Ref):
            o = self.obj(f)
            if isinstance(o, InstObj):
                c = self.lookup_class(o.cls, '__call__')
                if c is not None and not isinstance(c, Ext):
                    return self.call(self.bind(c, f, o.cls), args, kwargs)
                if isinstance(c, Ext):
                    for nm in ('forward', 'call'):
                        g = self.lookup_class(o.cls, nm)
                        if g is not None and not isinstance(g, Ext):
                            return self.call(self.bind(g, f, o.cls), args, kwargs)
                self.raise_exc('TypeError', ('%s object is not callable' % getattr(o.cls, 'name', '?'),), implicit=True)
                return self.opaque('not callable')
        if isinstance(f, Node):
            if f.op == 'host':
                return self.call(f.args[0], args, kwargs)
            if f.op == 'ite' and any(isinstance(x, Node) and x.op in ('host', 'ite') for x in f.args[1:]):
                return self.branch(f.args[0], lambda: self.call(f.args[1], args, kwargs), lambda: self.call(f.args[2], args, kwargs))
            from .builtin_calls import call_node
            return call_node(self, f, args, kwargs)
        return self.opaque('call of %r' % (f,))

    def call_func(self, f, args, kwargs):
        stub = self.stubs.get(f.qual)
        if stub is not None:
            return stub(self, f, args, kwargs)
        if self.depth > MAX_DEPTH or sum(1 for c in self.fn_stack if c.func is f) > 6:
            return self.opaque('recursion in ' + f.qual)
        if f.decorators and not self.loop_depth and any(str(d).split('.')[-1] in ('lru_cache', 'cache') for d in f.decorators) and f not in self.memo_busy:
            key = (f, tuple(self.freeze(a) for a in args), tuple((k, self.freeze(v)) for k, v in sorted(kwargs.items())))
            hit = self.memo_calls.get(key)
            if hit is not None and self.st.pc[:len(hit[1])] == hit[1]:
                return hit[0]
            self.memo_busy.add(f)
            try:
                r = self.call_func(f, args, kwargs)
            finally:
                self.memo_busy.discard(f)
            self.memo_calls[key] = (r, self.st.pc)
            return r
        node = f.node
        self.functions_seen.add(f.qual)
        self.inlined_calls += 1
        fid = self.new_frame(f.fid if f.fid != (f.module.fid if f.module else None) else None, f.module)
        # class-body frames are not enclosing scopes for methods
        if f.cls is not None and f.fid is not None and self.parent.get(fid) is not None and f.fid != f.module.fid:
            par = f.fid
            if self._is_class_frame(par, f):
                self.parent[fid] = self.parent.get(par)
        if self.tracking and f.decorators and any(stops_gradient(d) for d in f.decorators):
            self.tracking = False
            try:
                r = self.call_func(f, args, kwargs)
            finally:
                self.tracking = True
            return mk('gradcut', self.freeze(r), loc=self.loc()) if not isinstance(r, Ref) or isinstance(self.obj(r), (ListObj, DictObj)) else r
        saved_cur = self.cur
        ok = self.bind_args(f, fid, list(args), dict(kwargs))
        if not ok:
            return self.opaque('argument binding of ' + f.qual)
        ctx = FnCtx(f, fid)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if names:
            ctx.first_arg = self.st.frames[fid].get(names[0])
        ctx.caller_loops = self.loop_stack
        self.fn_stack.append(ctx)
        saved_loops = self.loop_stack
        self.loop_stack = []
        self.depth += 1
        self.cur = (f.module.path, node.lineno, f.qual.split('.', 1)[-1] if '.' in f.qual else f.qual)
        basepc = self.st.pc
        if f.is_gen:
            ctx.yield_ref = self.new_list((), 'gen')
        try:
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body, fid)
                ctx.returns.append((self.st, v))
            else:
                self.exec_block(node.body, fid)
                if not self.st.dead:
                    ctx.returns.append((self.st, None))
                elif not ctx.returns:
                    pass
        finally:
            self.fn_stack.pop()
            self.loop_stack = saved_loops
            self.depth -= 1
            self.cur = saved_cur
        dead_tail = self.st if self.st.dead else None
        if not ctx.returns:
            self.st.pc = basepc
            return UNDEF_NODE
        acc_st, acc_v = ctx.returns[-1]
        for st, v in reversed(ctx.returns[:-1]):
            g = conj(self.pc_beyond(st.pc, basepc))
            acc_st, acc_v = self.merge2(g, st, v, acc_st, acc_v, basepc)
        if dead_tail is not None:
            acc_st.events = self.merge_events(dead_tail.events, acc_st.events)
        if fid not in self.captured:
            acc_st.frames.pop(fid, None)
        if len(ctx.returns) > 1:
            acc_st.pc = basepc
        self.st = acc_st
        self.st.dead = False
        # frames of finished calls that no closure captured could be dropped; keep (small)
        if f.is_gen:
            return ctx.yield_ref
        return acc_v

    def _is_class_frame(self, fid, f):
        return f.name in self.st.frames.get(fid, {}) and f.cls is not None

    def bind_args(self, f, fid, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        fr = self.st.frames[fid]
        kwx = kwargs.pop('**', None)
        nd = len(f.defaults)
        dflt = dict(zip(pos[len(pos) - nd:], f.defaults)) if nd else {}
        if any(isinstance(x, Node) and x.op == 'starargs' for x in args):
            if a.vararg is not None and len(args) == 1 and not pos:
                fr[a.vararg.arg] = args[0].args[0]
                args = []
            else:
                # bind positionally from the unknown tuple
                new = []
                for x in args:
                    if isinstance(x, Node) and x.op == 'starargs':
                        k = len(pos) - len(new)
                        new += [self.getitem(x.args[0], i) for i in range(max(k, 0))]
                    else:
                        new.append(x)
                args = new
        if len(args) > len(pos) and a.vararg is None:
            self.raise_exc('TypeError', ('%s takes %d positional arguments but %d were given' % (f.qual, len(pos), len(args)),), implicit=True)
            return False
        for n, v in zip(pos, args):
            fr[n] = v
        if a.vararg is not None and a.vararg.arg not in fr:
            fr[a.vararg.arg] = tuple(args[len(pos):])
        rest = {}
        posonly = set(x.arg for x in a.posonlyargs)
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos and k not in posonly:
                if k in fr:
                    self.raise_exc('TypeError', ('%s got multiple values for argument %s' % (f.qual, k),), implicit=True)
                    return False
                fr[k] = v
            elif k in kwonly:
                fr[k] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            d = self.new_dict(list(rest.items()))
            if kwx is not None:
                o = self.obj(d)
                self.st.heap[d.oid] = DictObj((mk('dbase', kwx),) + o.entries, o.binders)
            fr[a.kwarg.arg] = d
        elif rest:
            self.raise_exc('TypeError', ('%s got an unexpected keyword argument %s' % (f.qual, sorted(rest)[0]),), implicit=True)
            return False
        for n in pos:
            if n not in fr:
                if kwx is not None:
                    fr[n] = self.n('getitem', kwx, n) if n not in dflt else self.n('dictget', kwx, n, self.freeze(dflt[n]))
                elif n in dflt:
                    fr[n] = dflt[n]
                else:
                    self.raise_exc('TypeError', ('%s missing required argument %s' % (f.qual, n),), implicit=True)
                    return False
        for n, d in zip(kwonly, f.kwdefaults):
            if n not in fr:
                if d is UNDEF:
                    self.raise_exc('TypeError', ('%s missing keyword argument %s' % (f.qual, n),), implicit=True)
                    return False
                fr[n] = d
        return True

    def instantiate(self, cls, args, kwargs):
        isexc = any(isinstance(c, Ext) and isinstance(getattr(builtins, c.name.split('.')[-1], None), type)
                    and issubclass(getattr(builtins, c.name.split('.')[-1]), BaseException) for c in self.mro(cls))
        if isexc:
            return ExcVal(self.exc_base(cls), tuple(self.freeze(a) for a in args), self.loc(), cls)
        ref = self.new_oid(InstObj(cls, {}, (), self.binders))
        init = self.lookup_class(cls, '__init__')
        if init is not None and not isinstance(init, Ext):
            self.call(self.bind(init, ref, cls), args, kwargs)
        elif any('dataclass' in d for d in self.class_decorators(cls)):
            self.dataclass_init(cls, ref, args, kwargs)
        return ref

    def class_decorators(self, cls):
        out = []
        for d in cls.node.decorator_list:
            out.append(ast.unparse(d))
        return out

    def dataclass_init(self, cls, ref, args, kwargs):
        fields = [(s.target.id, s.value) for s in cls.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
        vals = {}
        for (n, d), a in zip(fields, args):
            vals[n] = a
        vals.update(kwargs)
        for n, d in fields:
            if n not in vals:
                vals[n] = cls.attrs.get(n, self.opaque('dataclass default'))
        o = self.obj(ref)
        self.st.heap[ref.oid] = InstObj(o.cls, vals, (), o.binders)

    # ---- list methods needed in the core
    def list_method(self, ref, name, args, kwargs):
        from .builtin_calls import list_method
        return list_method(self, ref, name, args, kwargs)


SCALAR_FUNCS = {'log2', 'log', 'sqrt', 'floor', 'ceil', 'prod', 'isscalar', 'ndim', 'size', 'is_tensor', 'is_complex', 'is_floating_point', 'float32',
                'float64', 'int32', 'int64', 'int', 'exp', 'power', 'cos', 'sin', 'abs', 'absolute', 'max', 'min', 'sum', 'mean', 'any', 'all', 'maximum', 'minimum'}


def _hashable(x):
    return x


VIEWCALLS = {'numpy.' + f for f in ('reshape', 'transpose', 'asarray', 'squeeze', 'swapaxes', 'moveaxis', 'expand_dims', 'ravel', 'real', 'imag',
                                    'atleast_1d', 'ascontiguousarray', 'asanyarray')} | {
    'torch.' + f for f in ('reshape', 'transpose', 'permute', 'squeeze', 'unsqueeze', 'flatten', 'view_as_real', 'view_as_complex', 'real', 'imag', 'as_tensor',
                           'narrow', 'select', 'movedim', 'from_numpy')}


def stops_gradient(v):
    s = str(v.name) if isinstance(v, Ext) else show(v, 4) if isinstance(v, Node) else str(v)
    if 'set_grad_enabled' in s:
        return 'False' in s
    return any(k in s for k in ('no_grad', 'inference_mode', 'stop_recording'))


def is_lock(e):
    return any('lock' in (x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else '').lower()
               or 'mutex' in (x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else '').lower() for x in ast.walk(e))


def steps_key(steps):
    return [tuple(s) for s in steps]


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, ast.GeneratorExp):
            pass
        stack.extend(ast.iter_child_nodes(n))
    return False


UNDEF_NODE = mk('opaque', 'dead code', '')
