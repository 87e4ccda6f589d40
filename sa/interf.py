"""Interference: another thread (or replica) runs the same call between any two statements.

After every statement of the marked phase, each cell of an object that the other party shares and whose new content depends on this party's input holds what the
other party would have written there: the same term with this party's atoms replaced (node `other`).  A call is free of interference when its value graph does not
notice."""
from .nodes import Node, Loop, mk, is_const
from .hosts import Ref, ListObj, DictObj, InstObj, FuncVal, BoundMethod, Partial, Choice


class Interference:
    def __init__(self, ip, mapping, exclude=()):
        self.ip = ip
        self.mapping = tuple(sorted(mapping.items()))
        self.names = set(mapping)
        self.exclude = {r.oid for r in exclude}
        self.shared = {oid for oid in ip.st.heap if oid not in self.exclude}
        self.limit = ip._oid
        self.seen = dict((oid, ip.st.heap[oid]) for oid in self.shared)
        self.memo = {}
        self.off = 0
        self.hits = []
        self.labels = {}
        self.label = '?'

    def gate(self):
        """the schedule decides, per cell, whether the other party has just written it"""
        k = self.labels.setdefault(self.label, len(self.labels))
        return mk('atom', 'sched%d' % min(k, 7), 'bool')

    def swap(self, v, loc):
        return mk('ite', self.gate(), mk('other', v, self.mapping, loc=loc), v, loc=loc)

    # ---- dependence on this party
    def mentions(self, v, depth=0):
        if isinstance(v, Node):
            r = self.memo.get(v)
            if r is None:
                self.memo[v] = False
                r = self._mentions(v)
                self.memo[v] = r
            return r
        if isinstance(v, tuple):
            return any(self.mentions(x) for x in v)
        if isinstance(v, Loop):
            key = ('L', id(v))
            r = self.memo.get(key)
            if r is None:
                self.memo[key] = False
                r = (self.mentions(v.count) or self.mentions(v.wcond) or self.mentions(v.brk)
                     or any(self.mentions(c[1]) or self.mentions(c[2]) for c in v.carries.values()))
                if v.done:
                    self.memo[key] = r
                else:
                    del self.memo[key]
            return r
        return False

    def _mentions(self, n):
        if n.op == 'atom':
            return n.args[0] in self.names
        if n.op == 'other':
            return False
        if n.op == 'carry':
            return False
        if n.op == 'ite' and isinstance(n.args[0], Node) and n.args[0].op == 'atom' and str(n.args[0].args[0]).startswith('sched'):
            return False
        return any(self.mentions(a) for a in n.args)

    # ---- the other party's version of a stored value
    def wrap(self, v, loc):
        ip = self.ip
        if isinstance(v, Node):
            if v.op == 'host':
                return v
            if self.mentions(v):
                return self.swap(v, loc)
            return v
        if isinstance(v, tuple):
            t = tuple(self.wrap(x, loc) for x in v)
            return t if any(a is not b for a, b in zip(t, v)) else v
        if isinstance(v, Ref):
            if v.oid in self.shared or v.oid in self.exclude:
                return v
            return self.adopt(v, loc)
        if isinstance(v, FuncVal):
            fr = ip.st.frames.get(v.fid)
            if fr and (v.module is None or v.fid != v.module.fid):
                import ast
                names = {x.id for x in ast.walk(v.node) if isinstance(x, ast.Name)}
                ch = {}
                for k, x in fr.items():
                    if k in names and isinstance(x, (Node, tuple)):
                        w = self.other(x, loc)
                        if w is not x:
                            ch[k] = w
                if ch:
                    fid = ip.new_frame(ip.parent.get(v.fid), v.module)
                    ip.st.frames[fid] = dict(fr, **ch)
                    f = FuncVal(v.name, v.node, v.module, fid, v.defaults, v.kwdefaults, v.cls, v.qual)
                    f.is_gen, f.decorators, f.extra = v.is_gen, v.decorators, v.extra
                    return Choice(self.gate(), f, v)
            return v
        if isinstance(v, Partial):
            a = [self.wrap(x, loc) for x in v.args]
            k = {n: self.wrap(x, loc) for n, x in v.kwargs.items()}
            f = self.wrap(v.f, loc)
            if f is v.f and all(x is y for x, y in zip(a, v.args)) and all(k[n] is v.kwargs[n] for n in k):
                return v
            return Partial(f, a, k)
        if isinstance(v, Choice):
            a, b = self.wrap(v.a, loc), self.wrap(v.b, loc)
            return v if (a is v.a and b is v.b) or str(getattr(v.cond, 'args', ('',))[0]).startswith('sched') else Choice(v.cond, a, b)
        return v

    def other(self, v, loc):
        if isinstance(v, tuple):
            t = tuple(self.other(x, loc) for x in v)
            return t if any(a is not b for a, b in zip(t, v)) else v
        if isinstance(v, Node) and v.op != 'host' and self.mentions(v):
            return mk('other', v, self.mapping, loc=loc)
        return v

    def adopt(self, v, loc):
        """the other party stores its own object where this one stored `v`"""
        ip = self.ip
        o = ip.obj(v)
        if isinstance(o, ListObj):
            if any(s.op != 'one' for s in o.segs):
                self.shared.add(v.oid)
                return v
            r = ip.new_list_segs(o.segs, o.kind)
        elif isinstance(o, DictObj):
            r = ip.new_oid(DictObj(o.entries, o.binders, o.factory))
        elif isinstance(o, InstObj):
            r = ip.new_oid(InstObj(o.cls, dict(o.attrs), o.dyn, o.binders))
        else:
            return v
        self.shared.add(r.oid)
        self.visit(r.oid, loc)
        return r

    # ---- after each statement
    def step(self):
        if self.off:
            return
        ip = self.ip
        heap = ip.st.heap
        seen = self.seen
        todo = [oid for oid in self.shared if heap.get(oid) is not seen.get(oid)]
        if not todo:
            return
        loc = ip.loc()
        for oid in todo:
            if oid in heap:
                self.visit(oid, loc)

    def visit(self, oid, loc):
        ip = self.ip
        o = ip.st.heap[oid]
        old = self.seen.get(oid)
        self.seen[oid] = o
        new = None
        self.label = ('object', oid)
        if isinstance(o, InstObj):
            at = {}
            for k, v in o.attrs.items():
                if old is not None and isinstance(old, InstObj) and old.attrs.get(k) is v:
                    continue
                self.label = (getattr(o.cls, 'name', '?'), k)
                w = self.wrap(v, loc)
                if w is not v:
                    at[k] = w
            dyn = self.entries(o.dyn or (), loc)
            if at or dyn is not None:
                new = InstObj(o.cls, dict(o.attrs, **at), dyn if dyn is not None else o.dyn, o.binders)
                self.note(oid, sorted(at) or ['*'], loc, o)
        elif isinstance(o, ListObj):
            segs = []
            hit = False
            for s in o.segs:
                t = self.seg(s, loc)
                hit = hit or t is not s
                segs.append(t)
            if hit:
                new = ListObj(o.kind, segs, o.binders)
                self.note(oid, ['[]'], loc, o)
        elif isinstance(o, DictObj):
            es = self.entries(o.entries, loc)
            if es is not None:
                new = DictObj(es, o.binders, o.factory)
                self.note(oid, ['{}'], loc, o)
        if new is not None:
            ip.st.heap[oid] = new
            self.seen[oid] = new

    def seg(self, s, loc):
        if s.op == 'one':
            w = self.wrap(s.args[0], loc)
            return s if w is s.args[0] else mk('one', w)
        if s.op == 'star' and self.mentions(s.args[0]):
            return mk('star', self.swap(s.args[0], loc))
        if s.op != 'one' and self.mentions(s):
            return mk('star', self.swap(mk('seq', 'list', (s,)), loc))
        return s

    def entries(self, es, loc):
        out = []
        hit = False
        for e in es:
            if e.op == 'dset':
                k, v = e.args
                if not is_const(k) and self.mentions(k):
                    twin = mk('dset', mk('other', k, self.mapping, loc=loc) if isinstance(k, Node) else tuple(
                        mk('other', x, self.mapping, loc=loc) if isinstance(x, Node) and self.mentions(x) else x for x in k), self.wrap(v, loc))
                    out.append(e)
                    if twin not in es:
                        out.append(twin)
                        hit = True
                    continue
                w = self.wrap(v, loc)
                if w is not v:
                    e = mk('dset', k, w)
                    hit = True
            elif self.mentions(e):
                if e.op == 'dite':
                    a = self.entries(e.args[1], loc)
                    b = self.entries(e.args[2], loc)
                    if a is not None or b is not None:
                        e = mk('dite', e.args[0], tuple(a) if a is not None else e.args[1], tuple(b) if b is not None else e.args[2])
                        hit = True
                elif e.op == 'dloop':
                    a = self.entries(e.args[1], loc)
                    if a is not None:
                        e = mk('dloop', e.args[0], tuple(a))
                        hit = True
            out.append(e)
        return tuple(out) if hit else None

    def note(self, oid, what, loc, o):
        cls = getattr(getattr(o, 'cls', None), 'name', type(o).__name__)
        self.hits.append((cls, tuple(what), str(loc)))
