"""Denotation of value graphs in small finite models (global value numbering by random interpretation).

A value graph is never *executed*: each node gets a fingerprint in a model where symbolic integers range over
small orderings and symbolic arrays are random vectors; two graphs denoting the same function receive equal
fingerprints in every model, and graphs that differ receive different ones with probability ~1 per model.
"""
import math
import sys

import numpy as np

from .nodes import Node, Loop, Host, UNDEF, mk, is_const, show
from .hosts import (Ref, Ext, ClassVal, FuncVal, BoundMethod, BoundBuiltin, ModuleVal, Partial, ExcVal)

sys.setrecursionlimit(200000)
np.seterr(all='ignore')
MAX_ITER = 4096


AUG = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b,
       'pow': lambda a, b: a ** b}


class Undecided(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, name, loc, msg=''):
        Exception.__init__(self, name, msg)
        self.name = name
        self.loc = loc
        self.msg = msg


class DT:
    """nominal dtype"""
    _c = {}

    def __new__(cls, name, fw='np'):
        k = (name, fw)
        o = cls._c.get(k)
        if o is None:
            o = object.__new__(cls)
            o.name, o.fw = name, fw
            cls._c[k] = o
        return o

    def __repr__(self):
        return '%s.%s' % (self.fw, self.name)


DTNAMES = {'float16', 'float32', 'float64', 'complex64', 'complex128', 'int8', 'int32', 'int64', 'bool', 'uint8', 'int16'}
DTALIAS = {'float': 'float32', 'double': 'float64', 'cfloat': 'complex64', 'cdouble': 'complex128', 'long': 'int64', 'int': 'int32',
           'half': 'float16', 'bool_': 'bool', 'float_': 'float64', 'complex_': 'complex128', 'int_': 'int64', 'single': 'float32', 'csingle': 'complex64',
           'complex': 'complex128'}


class AV:
    """array fingerprint: storage at double precision + nominal dtype + framework"""
    __slots__ = ('a', 'dt', 'fw')

    def __init__(self, a, dt=None, fw='np'):
        self.a = np.asarray(a)
        if self.a.dtype == np.float32 or self.a.dtype == np.float16:
            dt = dt or str(self.a.dtype)
            self.a = self.a.astype(np.float64)
        elif self.a.dtype == np.complex64:
            dt = dt or 'complex64'
            self.a = self.a.astype(np.complex128)
        self.dt = dt or str(self.a.dtype)
        self.fw = fw

    def __repr__(self):
        return '<AV %s %s %s>' % (self.fw, self.dt, self.a.shape)


class HostV:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'HostV(%r)' % (self.v,)

    def __eq__(self, o):
        return isinstance(o, HostV) and (o.v is self.v or (isinstance(o.v, Ref) and isinstance(self.v, Ref) and o.v.oid == self.v.oid))

    def __hash__(self):
        return hash(id(self.v))


class ObjV:
    """library object with attributes and an optional call behaviour"""
    def __init__(self, kind, attrs=None, call=None):
        self.kind = kind
        self.attrs = attrs or {}
        self.call = call

    def __repr__(self):
        return '<%s>' % self.kind


class Th:
    """lazy value"""
    __slots__ = ('ev', 'node', 'env', 'val')

    def __init__(self, ev, node, env):
        self.ev, self.node, self.env, self.val = ev, node, env, None

    def get(self):
        if self.ev is not None:
            v = self.ev.eval(self.node, self.env)
            self.val = v
            self.ev = self.env = self.node = None
        return self.val


def force(v):
    while isinstance(v, Th):
        v = v.get()
    return v


class Cell:
    __slots__ = ('tok', 'val')
    n = [0]

    def __init__(self, val):
        Cell.n[0] += 1
        self.tok = Cell.n[0]
        self.val = val


class SetV(list):
    pass


def is_av(v):
    return isinstance(v, AV)


def dt_join(dts, weak_c=False, weak_f=False, fw='np'):
    d = [x for x in dts if x]
    if not d:
        r = None
    else:
        r = d[0]
        for x in d[1:]:
            r = str(np.promote_types(r, x)) if r != x else r
            if fw != 'np' and r == 'complex128' and set((dts)) <= {'float32', 'complex64', 'float16', 'int64', 'bool'}:
                r = 'complex64'
    if r is None:
        r = 'complex128' if weak_c else 'float64'
    if weak_f and r in ('int64', 'int32', 'bool'):
        r = 'float64' if fw == 'np' else 'float32'
    if weak_c and not r.startswith('complex'):
        r = 'complex64' if r in ('float32', 'float16') else 'complex128'
    return r


def nominal(res, args, fw):
    """nominal dtype of an elementwise/structural result computed from args"""
    k = res.dtype.kind
    if k == 'b':
        return 'bool'
    dts = [x.dt for x in args if is_av(x)]
    wc = any(isinstance(x, complex) for x in args)
    wf = any(isinstance(x, float) for x in args)
    if not dts:
        return str(res.dtype)
    d = dt_join(dts, wc, wf, fw)
    if k == 'c' and not d.startswith('complex'):
        d = 'complex64' if d in ('float32', 'float16') else 'complex128'
    if k == 'f' and d.startswith('complex'):
        d = 'float32' if d == 'complex64' else 'float64'
    if k == 'f' and d[0] in 'iub':
        d = 'float64' if fw in ('np',) else 'float32'
    if k in 'iu' and d[0] not in 'iu':
        d = 'int64'
    return d


def fw_of(args, default='np'):
    order = ('torch', 'tf', 'jax')
    f = set(x.fw for x in args if is_av(x))
    for o in order:
        if o in f:
            return o
    if f:
        return 'np'
    return default


def raw(v):
    """python/numpy value usable by numpy"""
    v = force(v)
    if is_av(v):
        return v.a
    if isinstance(v, (list, tuple)):
        t = [raw(x) for x in v]
        return tuple(t) if isinstance(v, tuple) else t
    if isinstance(v, DT):
        return np.dtype({'float32': 'float64', 'complex64': 'complex128', 'float16': 'float64'}.get(v.name, v.name))
    if isinstance(v, SliceVal2):
        return slice(raw(v.a), raw(v.b), raw(v.c))
    return v


def collect(args):
    out = []
    for x in args:
        x = force(x)
        if is_av(x) or isinstance(x, (float, complex)):
            out.append(x)
        elif isinstance(x, (list, tuple)):
            out += collect(x)
    return out


class SliceVal2:
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


def as_index(v):
    v = force(v)
    if is_av(v):
        if v.a.dtype == bool:
            return v.a
        if v.a.ndim == 0:
            return int(v.a) if v.a.dtype.kind in 'iu' else _bad_index()
        if v.a.dtype.kind in 'iu':
            return v.a
        _bad_index()
    if isinstance(v, SliceVal2):
        return slice(as_int(v.a), as_int(v.b), as_int(v.c))
    if isinstance(v, tuple):
        return tuple(as_index(x) for x in v)
    if isinstance(v, list):
        return [as_index(x) for x in v]
    if isinstance(v, float):
        _bad_index()
    return v


def as_gridkey(v):
    v = force(v)
    if isinstance(v, tuple):
        return tuple(as_gridkey(x) for x in v)
    if isinstance(v, SliceVal2):
        return slice(*[raw(force(x)) if is_av(force(x)) else force(x) for x in (v.a, v.b, v.c)])
    return raw(v)


def _bad_index():
    raise IndexError('only integers, slices are valid indices')


def as_int(v):
    v = force(v)
    if is_av(v):
        if v.a.dtype.kind not in 'iu':
            raise TypeError('slice indices must be integers')
        return int(v.a)
    if isinstance(v, float):
        raise TypeError('slice indices must be integers')
    return v


TYPES = {'builtins.int': int, 'builtins.float': float, 'builtins.str': str, 'builtins.tuple': tuple, 'builtins.list': list,
         'builtins.dict': dict, 'builtins.bool': bool, 'builtins.complex': complex, 'builtins.NoneType': type(None), 'builtins.bytes': bytes}


def caught(name, handler):
    import builtins
    if handler in ('*', 'Exception', 'BaseException') or name == handler:
        return True
    a, b = getattr(builtins, name, None), getattr(builtins, handler, None)
    return isinstance(a, type) and isinstance(b, type) and issubclass(a, b)


CUTOPS = {'call', 'mcall', 'attr', 'callv', 'gradcut'}
SINGOPS = {'call', 'mcall', 'pow', 'div'}


class Evaluator:
    def __init__(self, atoms, ip=None, callbacks=None, record=None):
        self.atoms = atoms
        self.memo = {}
        self.loopmemo = {}
        self.ip = ip
        self.callbacks = callbacks or {}
        self.record = record        # dict: cond uid -> set of truth values
        self.steps = 0
        self.valset = None
        self.gradcut = bool(atoms.get('gradcut'))
        self.singular = [] if atoms.get('atzero') else None
        self.cuts, self.xmemo, self.carrydef = [], {}, {}

    # ------------------------------------------------------------------ core
    def eval(self, n, env=None):
        if env is None:
            env = {}
        if not isinstance(n, Node):
            return self.host(n, env)
        free = n.free
        if free:
            toks = []
            for s in free:
                c = env.get(s)
                if c is None:
                    raise Undecided('unbound loop symbol %s in %s at %s' % (s, show(n, 3)[:200], n.loc))
                toks.append(c.tok)
            toks.sort()
            key = (n.uid,) + tuple(toks)
        else:
            key = n.uid
        r = self.memo.get(key)
        if r is not None:
            if r[0] is None:
                return r[1]
            raise r[0]
        self.steps += 1
        if self.steps > 6000000:
            raise Undecided('evaluation budget')
        try:
            m = getattr(self, 'n_' + n.op, None)
            if m is None:
                raise Undecided("no denotation for node %s at %s" % (n.op, n.loc))
            try:
                v = force(m(n, env))
            except (Undecided, PyRaise):
                raise
            except RecursionError:
                raise Undecided('recursion')
            except (IndexError, KeyError, TypeError, ValueError, ZeroDivisionError, AttributeError, RuntimeError, OverflowError, AssertionError, np.linalg.LinAlgError, NotImplementedError, OSError) as e:
                nm = type(e).__name__
                if nm == 'AxisError':
                    nm = 'ValueError'
                raise PyRaise(nm, n.loc, str(e))
        except (Undecided, PyRaise) as e:
            self.memo[key] = (e, None)
            raise
        if self.gradcut and n.op in CUTOPS:
            v = self.cut(n, v, env)
        if self.singular is not None and n.op in SINGOPS:
            self.singularity(n, env)
        self.memo[key] = (None, v)
        return v

    # ---- gradient tracking: values that leave it are perturbed
    def cut(self, n, v, env):
        if not (is_av(v) and v.a.dtype.kind in 'fc' or isinstance(v, (float, complex))):
            return v
        if n.op == 'gradcut':
            pass
        elif n.op == 'mcall' and n.args[1] in ('detach', 'detach_', 'numpy', 'item', 'tolist', '__array__'):
            pass
        elif n.op == 'attr' and n.args[1] == 'data':
            pass
        elif n.op == 'call' and (n.args[0].split('.')[-1] in ('stop_gradient', 'Variable', 'device_get') or n.args[0] in ('torch.tensor', 'torch.Tensor', 'torch.FloatTensor', 'torch.DoubleTensor')):
            pass
        else:
            xs = n.args[1] if n.op in ('call', 'callv') else (n.args[0],) + tuple(n.args[2]) if n.op == 'mcall' else ()
            out = v.fw if is_av(v) else 'py'
            if out not in ('np', 'py'):
                return v
            for a in xs:
                if isinstance(a, Node):
                    try:
                        b = force(self.eval(a, env))
                    except (Undecided, PyRaise):
                        continue
                    for y in ([b] if is_av(b) else b if isinstance(b, (list, tuple)) else ()):
                        y = force(y)
                        if is_av(y) and y.fw in ('torch', 'tf', 'jax') and self.depends(a):
                            break
                    else:
                        continue
                    break
            else:
                return v
        if not self.depends(n):
            return v
        self.cuts.append((n.op, str(n.args[1] if n.op in ('mcall', 'attr') else n.args[0]) if n.op != 'gradcut' else 'code outside gradient tracking', str(n.loc)))
        if is_av(v):
            f = 1 + 0.02 * np.sin(1 + np.arange(v.a.size)).reshape(v.a.shape)
            return AV(v.a * f, v.dt, v.fw)
        return v * 1.01

    def depends(self, n):
        """does the node mention the input x"""
        m = self.xmemo
        if isinstance(n, tuple):
            return any(self.depends(y) for y in n)
        if isinstance(n, Loop):
            k = ('L', id(n))
            if k not in m:
                m[k] = False
                for c in n.carries.values():
                    self.carrydef[c[0]] = c
                m[k] = any(self.depends(y) for y in (n.count, n.wcond, n.brk)) or any(self.depends(c[1]) or self.depends(c[2]) for c in n.carries.values())
            return m[k]
        if not isinstance(n, Node):
            return False
        if n not in m:
            m[n] = False
            if n.op == 'atom':
                r = n.args[0] == 'x'
            elif n.op == 'carry':
                c = self.carrydef.get(n)
                r = c is None or self.depends(c[1]) or self.depends(c[2])
            else:
                r = any(self.depends(y) for y in n.args)
            m[n] = r
        return m[n]

    # ---- operations whose derivative is infinite or undefined at the value they are applied to
    def singularity(self, n, env):
        name = n.args[1] if n.op == 'mcall' else n.args[0] if n.op == 'call' else n.op
        short = str(name).split('.')[-1].rstrip('_')
        args = n.args[1] if n.op == 'call' else (n.args[0],) + tuple(n.args[2]) if n.op == 'mcall' else n.args
        if short not in ('sqrt', 'rsqrt', 'log', 'log2', 'log10', 'hypot', 'pow', 'div', 'true_divide', 'divide', 'reciprocal', 'atan2', 'arctan2', 'float_power'):
            return

        def val(i):
            if i >= len(args):
                return None
            v = force(self.eval(args[i], env)) if isinstance(args[i], Node) else args[i]
            return v

        def zero(v):
            return np.any(v.a == 0) if is_av(v) else v == 0
        if short in ('div', 'true_divide', 'divide', 'atan2', 'arctan2', 'hypot'):
            a, b = val(0), val(1)
            bad = b is not None and is_av(a if is_av(a) else b) and zero(b) and zero(a) and (self.depends(args[0]) or self.depends(args[1]))
        elif short in ('pow', 'float_power'):
            a, b = val(0), val(1)
            bad = is_av(a) and isinstance(b, (int, float)) and b < 1 and b != 0 and zero(a) and self.depends(args[0])
        else:
            a = val(0)
            bad = is_av(a) and zero(a) and self.depends(args[0])
        if bad:
            self.singular.append((short, n.loc))

    def n_gradcut(self, n, env):
        v = force(self.eval(n.args[0], env))
        if self.gradcut and isinstance(v, (list, tuple, dict)) and self.depends(n):
            hit = []

            def deepcut(v):
                v = force(v)
                if is_av(v):
                    hit.append(1)
                    f = 1 + 0.02 * np.sin(1 + np.arange(v.a.size)).reshape(v.a.shape)
                    return AV(v.a * f, v.dt, v.fw) if v.a.dtype.kind in 'fc' else v
                if isinstance(v, (list, tuple)):
                    return type(v)(deepcut(y) for y in v) if type(v) in (list, tuple) else v
                if isinstance(v, dict):
                    return {k: deepcut(y) for k, y in v.items()}
                return v
            v = deepcut(v)
            if hit:
                self.cuts.append(('gradcut', 'code outside gradient tracking', str(n.loc)))
        return v

    def host(self, n, env):
        if is_const(n):
            return n
        if isinstance(n, tuple):
            return tuple(self.eval(x, env) for x in n)
        if n is UNDEF:
            raise PyRaise('UnboundLocalError', None)
        if isinstance(n, Host):
            return self.hostv(n)
        raise Undecided('host value %r' % (n,))

    def hostv(self, h):
        if isinstance(h, Ext):
            top, short = h.name.split('.')[0], h.name.split('.')[-1]
            fw = {'numpy': 'np', 'torch': 'torch', 'tensorflow': 'tf', 'jax': 'jax'}.get(top)
            if fw:
                s = DTALIAS.get(short, short) if fw != 'np' or short in ('bool_', 'float_', 'complex_', 'int_', 'single', 'csingle', 'double', 'cdouble') else short
                if s in DTNAMES:
                    return DT(s, fw)
            if h.name in ('builtins.float', 'builtins.int', 'builtins.complex', 'builtins.bool'):
                return HostV(h)
        return HostV(h)

    def truth(self, v):
        v = force(v)
        if is_av(v):
            if v.a.size == 1:
                return bool(v.a.reshape(-1)[0])
            raise ValueError('truth value of an array is ambiguous')
        if isinstance(v, (HostV, ObjV, DT)):
            return True
        return bool(v)

    def cond(self, c, env):
        if isinstance(c, bool):
            return c
        v = self.truth(self.eval(c, env))
        if self.record is not None and isinstance(c, Node):
            self.record.setdefault(c.uid, set()).add(v)
        return v

    # ------------------------------------------------------------------ leaves
    def n_atom(self, n, env):
        name = n.args[0]
        if name in self.atoms:
            v = self.atoms[name]
            return v
        raise Undecided('atom %s' % name)

    def n_other(self, n, env):
        if getattr(self, 'is_alt', False):
            return self.eval(n.args[0], env)
        alts = self.__dict__.setdefault('alts', {})
        ev = alts.get(n.args[1])
        if ev is None:
            atoms = dict(self.atoms)
            for a, b in n.args[1]:
                if b not in self.atoms:
                    raise Undecided('atom %s' % b)
                atoms[a] = self.atoms[b]
            ev = alts[n.args[1]] = Evaluator(atoms, self.ip)
            ev.is_alt = True
        return ev.eval(n.args[0], env)

    def n_opaque(self, n, env):
        raise Undecided('opaque: %s at %s' % (n.args[0], n.args[1]))

    def n_bound(self, n, env):
        return env[n].val

    n_carry = n_bound

    def n_libexc(self, n, env):
        v = self.atoms.get('libexc:' + n.args[0])
        if v is not None:
            return bool(v)
        w = self.ip.faultnodes.get(n) if self.ip is not None else None
        if w is None:
            return False
        for pc, node in w[0]:
            try:
                if all(self.cond(c, env) for c in pc):
                    self.eval(node, env)
            except PyRaise as e:
                return any(caught(e.name, x) for x in (w[1] or ['*'])) and not any(caught(e.name, x) for names in w[2] for x in (names or ['*']))
            except Undecided:
                pass
        return False

    def n_oscall(self, n, env):
        w = self.atoms.get('$os')
        if w is None:
            raise Undecided('operating system: ' + n.args[2])
        if self.__dict__.get('world') is None:
            from .osmodel import World
            self.world = World(w)
        args = [deep(x) for x in self.arglist(n.args[3], env)]
        kw = {k: deep(self.eval(v, env)) for k, v in n.args[4]}
        return self.world.call(n.args[0], n.args[2], args, kw)

    def n_host(self, n, env):
        return self.hostv(n.args[0])

    def n_ctxobj(self, n, env):
        return ObjV('ctx')

    def n_slice(self, n, env):
        return SliceVal2(*[self.eval(x, env) for x in n.args])

    def n_range(self, n, env):
        a, b, c = [self.eval(x, env) for x in n.args]
        return list(range(as_range(a), as_range(b), as_range(c)))

    # ------------------------------------------------------------------ control
    def n_ite(self, n, env):
        return self.eval(n.args[1] if self.cond(n.args[0], env) else n.args[2], env)

    def n_and(self, n, env):
        return self.cond(n.args[0], env) and self.cond(n.args[1], env)

    def n_or(self, n, env):
        return self.cond(n.args[0], env) or self.cond(n.args[1], env)

    def n_not(self, n, env):
        return not self.cond(n.args[0], env)

    def n_truth(self, n, env):
        return self.truth(self.eval(n.args[0], env))

    def loop_iter(self, L, env):
        """yield the environment of each iteration (lazy carries); finally sets self._final"""
        cells = {}
        e = dict(env)
        for cell, (sym, init, upd) in L.carries.items():
            e[sym] = Cell(Th(self, init, env))
            self.carrydef[sym] = (sym, init, upd)
        if L.kind == 'for':
            cnt = force(self.eval(L.count, env))
            if is_av(cnt):
                cnt = int(cnt.a)
            if not isinstance(cnt, int):
                raise PyRaise('TypeError', L.loc, 'loop count')
            n = max(cnt, 0)
        else:
            n = MAX_ITER
        if n > MAX_ITER:
            raise Undecided('loop bound %d' % n)
        i = 0
        while i < n:
            e[L.binder] = Cell(i)
            if L.kind == 'while' and not self.cond(L.wcond, e):
                break
            yield e
            brk = self.cond(L.brk, e) if L.brk is not False else False
            e2 = dict(e)
            for cell, (sym, init, upd) in L.carries.items():
                if upd is sym:
                    continue
                e2[sym] = Cell(Th(self, upd, e))
            e = e2
            i += 1
            if brk:
                break
        else:
            if L.kind == 'while':
                raise Undecided('while bound')
        e = dict(e)
        self._final = e

    def n_loopout(self, n, env):
        L, cell = n.args
        key = (id(L),) + tuple(sorted(env[s].tok for s in L.free() if s in env))
        fin = self.loopmemo.get(key)
        if fin is None:
            for e in self.loop_iter(L, env):
                pass
            fin = self._final
            self.loopmemo[key] = fin
        sym = L.carries[cell][0]
        v = fin[sym].val
        return force(v)

    def n_atiter(self, n, env):
        L, body = n.args
        idx = env[L.binder].val
        key = ('envs', id(L)) + tuple(sorted(env[s].tok for s in L.free() if s in env))
        envs = self.loopmemo.get(key)
        if envs is None:
            base = {k: v for k, v in env.items() if k is not L.binder}
            envs = list(self.loop_iter(L, base))
            self.loopmemo[key] = envs
        if not 0 <= idx < len(envs):
            raise Undecided('iteration out of range')
        e = dict(env)
        for cell, (sym, _i, _u) in L.carries.items():
            e[sym] = envs[idx][sym]
        return self.eval(body, e)

    # ------------------------------------------------------------------ containers
    def n_seq(self, n, env):
        kind = n.args[0]
        out = []
        self.segs(n.args[1], env, out)
        if kind == 'tuple':
            return tuple(force(x) for x in out)
        if kind == 'set':
            s = SetV()
            for x in out:
                x = force(x)
                if not any(same(x, y) for y in s):
                    s.append(x)
            return s
        return out

    def segs(self, segs, env, out):
        for s in segs:
            if s.op == 'one':
                x = s.args[0]
                out.append(x if is_const(x) else Th(self, x, env))
            elif s.op == 'segloop':
                for e in self.loop_iter(s.args[0], env):
                    self.segs(s.args[1], e, out)
            elif s.op == 'iteseg':
                self.segs(s.args[1] if self.cond(s.args[0], env) else s.args[2], env, out)
            elif s.op == 'star':
                out += self.iterate(self.eval(s.args[0], env))
            elif s.op == 'sorted':
                pairs = []
                self.keyed(s.args[0], env, pairs)
                ks = [orderable(k) for k, _ in pairs]
                rev = self.truth(self.eval(s.args[1], env)) if not isinstance(s.args[1], bool) else s.args[1]
                idx = sorted(range(len(pairs)), key=lambda i: ks[i], reverse=rev)
                for i in idx:
                    out += pairs[i][1]
            elif s.op == 'keyed':
                self.segs(s.args[1], env, out)
            else:
                raise Undecided('segment ' + s.op)

    def keyed(self, segs, env, pairs):
        for s in segs:
            if s.op == 'keyed':
                items = []
                self.segs(s.args[1], env, items)
                pairs.append((deep(self.eval(s.args[0], env)), items))
            elif s.op == 'segloop':
                for e in self.loop_iter(s.args[0], env):
                    self.keyed(s.args[1], e, pairs)
            elif s.op == 'iteseg':
                self.keyed(s.args[1] if self.cond(s.args[0], env) else s.args[2], env, pairs)
            else:
                raise Undecided('sorted segment ' + s.op)

    def iterate(self, v):
        v = force(v)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if is_av(v):
            if v.a.ndim == 0:
                raise TypeError('iteration over a 0-d array')
            return [self.wrap(v.a[i], v.dt, v.fw) for i in range(v.a.shape[0])]
        raise TypeError('object is not iterable')

    def n_dict(self, n, env):
        d = {}
        self.entries(n.args[0], env, d)
        return d

    def entries(self, es, env, d):
        for e in es:
            if e.op == 'dset':
                k = hashable(self.eval(e.args[0], env))
                x = e.args[1]
                d[k] = x if is_const(x) else Th(self, x, env)
            elif e.op == 'dite':
                self.entries(e.args[1] if self.cond(e.args[0], env) else e.args[2], env, d)
            elif e.op == 'dloop':
                for e2 in self.loop_iter(e.args[0], env):
                    self.entries(e.args[1], e2, d)
            elif e.op == 'dbase':
                b = force(self.eval(e.args[0], env))
                if not isinstance(b, dict):
                    raise TypeError('not a mapping')
                d.update(b)
            else:
                raise Undecided('dict entry ' + e.op)

    def n_dictkeys(self, n, env):
        return list(self.eval(n.args[0], env))

    def n_dictvalues(self, n, env):
        return list(self.eval(n.args[0], env).values())

    def n_dictitems(self, n, env):
        return [(k, v) for k, v in self.eval(n.args[0], env).items()]

    def n_dictget(self, n, env):
        d = force(self.eval(n.args[0], env))
        k = hashable(self.eval(n.args[1], env))
        if not isinstance(d, dict):
            raise Undecided('get on %r' % (d,))
        if k in d:
            return d[k]
        return self.eval(n.args[2], env)

    def n_dictpop(self, n, env):
        d = dict(self.eval(n.args[0], env))
        d.pop(hashable(self.eval(n.args[1], env)), None)
        return d

    def n_listmeth(self, n, env):
        base = force(self.eval(n.args[0], env))
        name = n.args[1]
        args = [self.eval(a, env) for a in (n.args[2] if len(n.args) > 2 else ())]
        if isinstance(base, dict):
            d = dict(base)
            if name == 'update':
                for a in args:
                    d.update(a if isinstance(a, dict) else dict(a))
                return d
            if name == 'setdefault':
                d.setdefault(hashable(args[0]), args[1] if len(args) > 1 else None)
                return d
            if name == 'clear':
                return {}
            raise AttributeError(name)
        if isinstance(base, list):
            l = list(base)
            if name == 'add':
                if not any(same(deep(x), deep(args[0])) for x in l):
                    l.append(args[0])
                return SetV(l)
            if name == 'extend' or name == 'update':
                l += self.iterate(args[0])
            elif name == 'discard':
                l = [x for x in l if not same(deep(x), deep(args[0]))]
            elif name == 'remove':
                for i, x in enumerate(l):
                    if same(deep(x), deep(args[0])):
                        del l[i]
                        break
                else:
                    raise ValueError('not in list')
            else:
                getattr(l, name)(*[as_index(a) if name in ('insert', 'pop') and i == 0 else a for i, a in enumerate(args)])
            return SetV(l) if isinstance(base, SetV) else l
        raise Undecided('list method on %r' % (base,))

    def n_len(self, n, env):
        v = force(self.eval(n.args[0], env))
        if is_av(v):
            if v.a.ndim == 0:
                raise TypeError('len() of unsized object')
            return v.a.shape[0]
        if isinstance(v, (list, tuple, dict, str)):
            return len(v)
        raise TypeError('object has no len()')

    def n_getitem(self, n, env):
        base = force(self.eval(n.args[0], env))
        if isinstance(base, dict):
            k = hashable(self.eval(n.args[1], env))
            if k in base:
                return base[k]
            raise KeyError(k)
        key = self.eval(n.args[1], env)
        return self.getitem(base, key)

    def getitem(self, base, key):
        key = force(key)
        if isinstance(base, dict):
            return base[hashable(key)]
        ix = as_index(key)
        if is_av(base):
            return self.wrap(base.a[ix], base.dt, base.fw)
        if isinstance(base, (list, tuple, str)):
            if isinstance(base, SetV):
                raise TypeError('set is not subscriptable')
            if isinstance(ix, (int, slice, np.integer, bool)):
                return base[ix]
            raise TypeError('list indices must be integers or slices')
        if base is None or isinstance(base, (int, float, bool)):
            raise TypeError('object is not subscriptable')
        if isinstance(base, HostV) and isinstance(base.v, Ext) and base.v.name in ('numpy.mgrid', 'numpy.ogrid', 'numpy.r_', 'numpy.c_', 'numpy.s_'):
            r = getattr(np, base.v.name.split('.')[1])[as_gridkey(key)]
            if isinstance(r, np.ndarray):
                return self.wrap(r, str(r.dtype), 'np')
            if isinstance(r, (list, tuple)) and all(isinstance(x, np.ndarray) for x in r):
                return tuple(self.wrap(x, str(x.dtype), 'np') for x in r)
        raise Undecided('subscript of %r' % (base,))

    def n_setitem(self, n, env):
        base = force(self.eval(n.args[0], env))
        if isinstance(base, dict):
            d = dict(base)
            d[hashable(self.eval(n.args[1], env))] = Th(self, n.args[2], env)
            return d
        key = self.eval(n.args[1], env)
        if isinstance(base, list):
            ix = as_index(key)
            l = list(base)
            if isinstance(ix, slice):
                l[ix] = self.iterate(self.eval(n.args[2], env))
            else:
                l[ix] = Th(self, n.args[2], env)
            return l
        if is_av(base):
            v = self.eval(n.args[2], env)
            a = base.a.copy(order='K')
            rv = raw(v)
            a[as_index(key)] = cast_like(rv, a)
            return AV(a, base.dt, base.fw)
        if isinstance(base, tuple):
            raise TypeError('tuple does not support item assignment')
        raise Undecided('store into %r' % (base,))

    def n_setview(self, n, env):
        root = force(self.eval(n.args[0], env))
        new = self.eval(n.args[2], env)
        if isinstance(root, (dict, list)):
            return self.setpath(root, n.args[1], new, env)
        if not is_av(root):
            raise Undecided('view store into %r' % (root,))
        a = root.a.copy(order='K')
        v = AV(a, root.dt, root.fw)
        v.a = a
        cur = a
        for st in n.args[1]:
            cur = self.view_step(cur, st, env, root.fw)
        if np.shares_memory(cur, a):
            cur[...] = cast_like(raw(new), a)
        return v

    def setpath(self, root, steps, new, env):
        st = steps[0]
        if st[0] != 'getitem':
            raise Undecided('container view')
        k = self.eval(st[1], env)
        if isinstance(root, dict):
            r = dict(root)
            k = hashable(k)
        else:
            r = list(root)
            k = as_index(k)
        if len(steps) == 1:
            r[k] = new
        else:
            sub = force(root[k])
            if is_av(sub):
                a = sub.a.copy(order='K')
                cur = a
                for s in steps[1:]:
                    cur = self.view_step(cur, s, env, sub.fw)
                if np.shares_memory(cur, a):
                    cur[...] = cast_like(raw(new), a)
                x = AV(a, sub.dt, sub.fw)
                r[k] = x
            elif isinstance(sub, (dict, list)):
                r[k] = self.setpath(sub, steps[1:], new, env)
            else:
                raise Undecided('container view')
        return r

    def view_step(self, cur, st, env, fw):
        if st[0] == 'getitem':
            return cur[as_index(self.eval(st[1], env))]
        if st[0] == 'attr':
            return {'real': cur.real, 'imag': cur.imag, 'T': cur.T}[st[1]]
        x = AV(cur, None, fw)
        x.a = cur
        args = [self.eval(a, env) for a in st[2]]
        kw = {k: self.eval(v, env) for k, v in st[3]}
        if st[0] == 'call':
            from .libmodel import call
            r = call(self, st[1], [x] + [force(a) for a in args], kw, None)
            return r.a if is_av(r) else np.array(0)
        from .libmodel import method
        return method(self, x, st[1], args, kw).a

    def n_setattr(self, n, env):
        base = force(self.eval(n.args[0], env))
        if isinstance(base, ObjV):
            o = ObjV(base.kind, dict(base.attrs), base.call)
            o.attrs[n.args[1]] = Th(self, n.args[2], env)
            return o
        if is_av(base) and n.args[1] in ('real', 'imag'):
            a = base.a.copy()
            setattr(a, n.args[1], raw(self.eval(n.args[2], env)))
            return AV(a, base.dt, base.fw)
        if is_av(base) and n.args[1] in ('shape',):
            return AV(base.a.reshape(raw(self.eval(n.args[2], env))), base.dt, base.fw)
        if is_av(base):
            return base
        raise Undecided('attribute store on %r' % (base,))

    def wrap(self, a, dt, fw):
        if not isinstance(a, np.ndarray):
            if fw == 'np':
                return pyscalar(a)
            return AV(np.asarray(a), dt, fw)
        if a.ndim == 0 and fw == 'np':
            return pyscalar(a[()])
        r = AV.__new__(AV)
        r.a, r.dt, r.fw = a, dt, fw
        return r

    def result(self, a, args, fw):
        """wrap a numpy result computed from args"""
        if isinstance(a, np.ndarray) or isinstance(a, np.generic):
            arr = np.asarray(a)
            return self.wrap(arr, nominal(arr, collect(args), fw), fw)
        return a

    # ------------------------------------------------------------------ arithmetic
    def bin(self, n, env, f, op):
        a = force(self.eval(n.args[0], env))
        b = force(self.eval(n.args[1], env))
        return self.binop(op, f, a, b)

    def binop(self, op, f, a, b):
        if is_av(a) or is_av(b):
            if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
                if op in ('add', 'mul', 'sub', 'div', 'pow', 'eq', 'lt', 'le', 'ne', 'floordiv', 'mod'):
                    fw = fw_of([a, b])
                    if fw == 'torch':
                        raise TypeError('unsupported operand')
                    a, b = (AV(np.asarray(raw(a))) if isinstance(a, (list, tuple)) else a), (AV(np.asarray(raw(b))) if isinstance(b, (list, tuple)) else b)
            if a is None or b is None or isinstance(a, (str, dict)) or isinstance(b, (str, dict)):
                if op == 'eq':
                    return False
                if op == 'ne':
                    return True
                raise TypeError('unsupported operand')
            if isinstance(a, (HostV, ObjV, DT)) or isinstance(b, (HostV, ObjV, DT)):
                raise Undecided('arithmetic on host')
            fw = fw_of([a, b])
            if op == 'pow' and is_av(a) and not is_av(b) and isinstance(b, int) and b < 0 and a.a.dtype.kind in 'iu':
                raise ValueError('Integers to negative integer powers are not allowed')
            r = f(raw(a), raw(b))
            return self.result(r, (a, b), fw)
        if isinstance(a, (HostV, ObjV)) or isinstance(b, (HostV, ObjV)):
            if op == 'eq':
                return a is b or a == b
            if op == 'ne':
                return not (a is b or a == b)
            raise TypeError('unsupported operand')
        if op == 'add' and isinstance(a, list) and isinstance(b, tuple) or op == 'add' and isinstance(a, tuple) and isinstance(b, list):
            raise TypeError('can only concatenate list to list')
        if op in ('eq', 'ne'):
            if isinstance(a, DT) or isinstance(b, DT):
                r = dt_eq(a, b)
            else:
                r = same(deep(a), deep(b))
            return r if op == 'eq' else not r
        if op in ('lt', 'le') and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b):
                raise TypeError('unorderable')
            return f(orderable(deep(a)), orderable(deep(b)))
        if op == 'pow' and isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(b) > 4000:
            raise Undecided('huge power')
        return f(a, b)

    def n_augbin(self, n, env):
        """in-place update: the left operand keeps its dtype and shape when it is an array"""
        op = n.args[0]
        a = force(self.eval(n.args[1], env))
        b = force(self.eval(n.args[2], env))
        f = AUG[op]
        r = self.binop(op, f, a, b)
        if is_av(a) and is_av(r) and a.fw in ('np', 'torch') and a.a.ndim > 0:
            if r.a.shape != a.a.shape:
                raise ValueError('non-broadcastable output operand')
            if r.dt != a.dt:
                kind = lambda d: 3 if d.startswith('complex') else 2 if d.startswith('float') else 1 if 'int' in d else 0
                if kind(r.dt) > kind(a.dt):
                    raise TypeError('cannot cast output of in-place operation')
                r = AV(r.a, a.dt, a.fw)
        return r

    def n_add(self, n, env): return self.bin(n, env, lambda a, b: a + b, 'add')
    def n_sub(self, n, env): return self.bin(n, env, lambda a, b: a - b, 'sub')
    def n_mul(self, n, env): return self.bin(n, env, lambda a, b: a * b, 'mul')
    def n_div(self, n, env): return self.bin(n, env, lambda a, b: a / b, 'div')
    def n_floordiv(self, n, env): return self.bin(n, env, lambda a, b: a // b, 'floordiv')
    def n_mod(self, n, env): return self.bin(n, env, lambda a, b: a % b, 'mod')
    def n_pow(self, n, env): return self.bin(n, env, lambda a, b: a ** b, 'pow')
    def n_lshift(self, n, env): return self.bin(n, env, lambda a, b: a << b, 'lshift')
    def n_rshift(self, n, env): return self.bin(n, env, lambda a, b: a >> b, 'rshift')
    def n_bitand(self, n, env): return self.bin(n, env, lambda a, b: a & b, 'bitand')
    def n_bitor(self, n, env): return self.bin(n, env, lambda a, b: a | b, 'bitor')
    def n_bitxor(self, n, env): return self.bin(n, env, lambda a, b: a ^ b, 'bitxor')
    def n_matmul(self, n, env): return self.bin(n, env, lambda a, b: a @ b, 'matmul')
    def n_lt(self, n, env): return self.bin(n, env, lambda a, b: a < b, 'lt')
    def n_le(self, n, env): return self.bin(n, env, lambda a, b: a <= b, 'le')
    def n_eq(self, n, env): return self.bin(n, env, lambda a, b: a == b, 'eq')
    def n_ne(self, n, env): return self.bin(n, env, lambda a, b: a != b, 'ne')

    def un(self, n, env, f):
        a = force(self.eval(n.args[0], env))
        if is_av(a):
            return self.result(f(a.a), (a,), a.fw)
        return f(a)

    def n_neg(self, n, env): return self.un(n, env, lambda a: -a)
    def n_invert(self, n, env): return self.un(n, env, lambda a: ~a)

    def n_is(self, n, env):
        a = force(self.eval(n.args[0], env))
        b = force(self.eval(n.args[1], env))
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, HostV) and isinstance(b, HostV):
            return a == b
        if isinstance(a, DT) and isinstance(b, DT):
            return a is b
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        if is_av(a) and is_av(b) and a is not b and (a.a.shape != b.a.shape):
            return False
        if type(a) is not type(b):
            return False
        raise Undecided('identity of values')

    def n_in(self, n, env):
        a = force(self.eval(n.args[0], env))
        b = force(self.eval(n.args[1], env))
        if isinstance(b, dict):
            return hashable(a) in b
        if isinstance(b, str):
            return a in b
        if isinstance(b, (list, tuple)):
            a = deep(a)
            for x in b:
                x = deep(x)
                if isinstance(a, DT) or isinstance(x, DT):
                    if dt_eq(a, x):
                        return True
                elif same(a, x):
                    return True
            return False
        if is_av(b):
            return bool((b.a == raw(a)).any())
        raise TypeError('argument is not iterable')

    def n_isinstance(self, n, env):
        v = force(self.eval(n.args[0], env))
        t = n.args[1]
        if not isinstance(t, tuple):
            raise Undecided('isinstance of computed type')
        names = []
        for x in t:
            if not isinstance(x, str):
                raise Undecided('isinstance of computed type')
            names.append(x)
        return any(self.inst(v, x) for x in names)

    def inst(self, v, x):
        py = TYPES.get(x)
        short = x.split('.')[-1]
        if py is not None:
            if py is list and isinstance(v, SetV):
                return False
            return isinstance(v, py)
        if x.startswith('numbers.'):
            return isinstance(v, {'Number': (int, float, complex), 'Integral': int, 'Real': (int, float), 'Complex': (int, float, complex)}[short])
        if is_av(v):
            if x in ('numpy.ndarray',):
                return v.fw == 'np'
            if x in ('torch.Tensor', 'torch.FloatTensor', 'torch.DoubleTensor', 'torch.cuda.FloatTensor', 'torch.cuda.DoubleTensor'):
                return v.fw == 'torch' and 'cuda' not in x and (short == 'Tensor' or short == {'float32': 'FloatTensor', 'float64': 'DoubleTensor'}.get(v.dt))
            if short in ('Tensor', 'Variable', 'EagerTensor') and x.startswith('tensorflow'):
                return v.fw == 'tf'
            if x.startswith('jax'):
                return v.fw == 'jax'
            return False
        if x == 'builtins.slice':
            return isinstance(v, SliceVal2)
        if x == 'builtins.set':
            return isinstance(v, SetV)
        if short in ('Iterable', 'Sequence', 'Sized', 'Collection', 'Mapping'):
            return isinstance(v, dict) if short == 'Mapping' else isinstance(v, (list, tuple, str) + ((dict,) if short != 'Sequence' else ()))
        if isinstance(v, (int, float, str, tuple, list, dict, type(None), bool, complex)):
            if x.startswith('numpy.') and short in ('integer', 'floating', 'generic', 'number', 'int64', 'int32', 'float64', 'float32', 'ndarray', 'bool_'):
                return False
            if x.startswith(('numpy', 'torch', 'tensorflow', 'jax', 'kymatio', 'builtins')):
                return False
        raise Undecided('isinstance %s' % x)

    def n_min(self, n, env):
        vs = [self.num(self.eval(a, env)) for a in n.args]
        return min(vs)

    def n_max(self, n, env):
        vs = [self.num(self.eval(a, env)) for a in n.args]
        return max(vs)

    def num(self, v):
        v = force(v)
        if is_av(v) and v.a.ndim == 0:
            return pyscalar(v.a[()])
        if is_av(v):
            raise ValueError('truth value of an array is ambiguous')
        return v

    def n_minseq(self, n, env):
        vs = [orderable(deep(x)) for x in self.iterate(self.eval(n.args[0], env))]
        if not vs and len(n.args) > 1 and n.args[1]:
            return self.eval(n.args[1][0], env)
        return min(vs)

    def n_maxseq(self, n, env):
        vs = [orderable(deep(x)) for x in self.iterate(self.eval(n.args[0], env))]
        if not vs and len(n.args) > 1 and n.args[1]:
            return self.eval(n.args[1][0], env)
        return max(vs)

    def n_str(self, n, env):
        return strof(force(self.eval(n.args[0], env)))

    def n_format(self, n, env):
        v = force(self.eval(n.args[0], env))
        if isinstance(n.args[2], str):
            return format(v if not isinstance(v, (AV, HostV, ObjV, DT)) else strof(v), n.args[2] if not isinstance(v, (AV, HostV)) else '')
        return strof(v)

    def n_strformat(self, n, env):
        v = force(self.eval(n.args[1], env))
        return n.args[0] % (tuple(strof(x) if not isinstance(x, (int, float, str)) else x for x in v) if isinstance(v, tuple) else v if isinstance(v, (int, float, str)) else strof(v))

    # ------------------------------------------------------------------ attributes and calls
    def n_attr(self, n, env):
        base = force(self.eval(n.args[0], env))
        from .libmodel import attribute
        return attribute(self, base, n.args[1])

    def arglist(self, args, env):
        out = []
        for a in args:
            if isinstance(a, Node):
                if a.op == 'starargs':
                    out += self.iterate(self.eval(a.args[0], env))
                else:
                    out.append(Th(self, a, env))
            else:
                out.append(self.host(a, env))
        return out

    def n_call(self, n, env):
        from .libmodel import call
        name = n.args[0]
        cb = self.callbacks.get(name)
        args = self.arglist(n.args[1], env)
        kw = {k: self.eval(v, env) for k, v in n.args[2]}
        if cb is not None:
            return cb(self, args, kw)
        return call(self, name, [force(a) for a in args], kw, n)

    def n_mcall(self, n, env):
        from .libmodel import method
        base = force(self.eval(n.args[0], env))
        args = [force(a) for a in self.arglist(n.args[2], env)]
        kw = {k: self.eval(v, env) for k, v in n.args[3]}
        return method(self, base, n.args[1], args, kw)

    def n_callv(self, n, env):
        f = force(self.eval(n.args[0], env))
        args = [force(a) for a in self.arglist(n.args[1], env)]
        kw = {k: self.eval(v, env) for k, v in n.args[2]}
        if isinstance(f, ObjV) and f.call is not None:
            return f.call(self, args, kw)
        if isinstance(f, HostV) and isinstance(f.v, Ext):
            from .libmodel import call
            return call(self, f.v.name, args, kw, n)
        if f is None or isinstance(f, (int, float, str, AV, list, tuple, dict)):
            raise TypeError('object is not callable')
        raise Undecided('call of %r' % (f,))

    # ------------------------------------------------------------------ outcomes
    def outcome(self, events, result, env=None):
        """('raise', name, loc) | ('value', deep value) ; may raise Undecided"""
        env = env or {}
        try:
            r = self.first_raise(events, env)
            if r is not None:
                return ('raise',) + r
            if result is UNDEF:
                raise Undecided('no result')
            return ('value', deep(self.eval(result, env)))
        except PyRaise as e:
            return ('raise', e.name, str(e.loc), e.msg)

    def first_raise(self, events, env):
        for e in events:
            if e.kind == 'raise':
                if self.guard(e.guard, env):
                    return (e.data[0], str(e.loc), '')
            elif e.kind == 'undecided':
                if self.guard(e.guard, env):
                    raise Undecided(e.data[0] + " at " + str(e.loc))
            elif e.kind == 'os':
                if '$os' in self.atoms and self.guard(e.guard, env):
                    self.eval(e.data[0], env)
            elif e.kind == 'unbound':
                if self.guard(e.guard, env) and self.cond(e.data[1], env):
                    return ('UnboundLocalError', str(e.loc), e.data[0])
            elif e.kind == 'loop' and has_raise(e.data[1]):
                if not self.guard(e.guard, env):
                    continue
                for e2 in self.loop_iter(e.data[0], env):
                    r = self.first_raise(e.data[1], e2)
                    if r is not None:
                        return r
        return None

    def walk(self, events, env, wanted):
        """(event, env) of the wanted events whose guards hold"""
        for e in events:
            if e.kind == 'loop':
                if has_event(e.data[1], wanted) and self.guard(e.guard, env):
                    for e2 in self.loop_iter(e.data[0], env):
                        yield from self.walk(e.data[1], e2, wanted)
            elif wanted(e) and self.guard(e.guard, env):
                yield e, env

    def guard(self, g, env):
        for c in g:
            if not self.cond(c, env):
                return False
        return True


def has_event(evs, wanted):
    return any(has_event(e.data[1], wanted) if e.kind == 'loop' else wanted(e) for e in evs)


def has_raise(evs):
    return any(e.kind in ('raise', 'undecided', 'unbound', 'os') or (e.kind == 'loop' and has_raise(e.data[1])) for e in evs)


def as_range(v):
    v = force(v)
    if is_av(v) and v.a.ndim == 0 and v.a.dtype.kind in 'iu':
        return int(v.a)
    if isinstance(v, bool) or isinstance(v, int):
        return int(v)
    raise TypeError('range argument must be an integer')


def cast_like(v, a):
    if a.dtype.kind != 'c':
        v = np.asarray(v)
        if v.dtype.kind == 'c':
            return v.real
    return v


def pyscalar(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


def hashable(v):
    v = deep(v)
    return _hash(v)


def _hash(v):
    if isinstance(v, tuple):
        return tuple(_hash(x) for x in v)
    if isinstance(v, (list, dict)):
        raise TypeError('unhashable type')
    if is_av(v):
        if v.a.ndim == 0:
            return pyscalar(v.a[()])
        raise TypeError('unhashable type')
    return v


def orderable(v):
    v = deep(v)
    if is_av(v) and v.a.ndim == 0:
        return pyscalar(v.a[()])
    if isinstance(v, tuple):
        return tuple(orderable(x) for x in v)
    if isinstance(v, list):
        return [orderable(x) for x in v]
    return v


def deep(v):
    v = force(v)
    if isinstance(v, SetV):
        return SetV(deep(x) for x in v)
    if isinstance(v, list):
        return [deep(x) for x in v]
    if isinstance(v, tuple):
        return tuple(deep(x) for x in v)
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    return v


def dt_eq(a, b):
    def nm(x):
        if isinstance(x, DT):
            return x.name
        if isinstance(x, str):
            return x
        if isinstance(x, HostV) and isinstance(x.v, Ext) and x.v.name in ('builtins.float', 'builtins.complex', 'builtins.int'):
            return {'float': 'float64', 'complex': 'complex128', 'int': 'int64'}[x.v.name[9:]]
        return x
    if (isinstance(a, DT) and a.fw == 'torch') != (isinstance(b, DT) and b.fw == 'torch') and isinstance(a, DT) and isinstance(b, DT):
        return False
    return nm(a) == nm(b)


def same(a, b):
    """python equality"""
    if is_av(a) or is_av(b):
        a2 = a.a if is_av(a) else a
        b2 = b.a if is_av(b) else b
        try:
            r = np.asarray(a2 == b2)
            return bool(r.all()) if r.size == 1 else False
        except Exception:
            return False
    if isinstance(a, SetV) and isinstance(b, SetV):
        return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    try:
        return bool(a == b)
    except Exception:
        return False


def strof(v):
    if isinstance(v, DT):
        return v.name
    if is_av(v):
        return str(v.a)
    if isinstance(v, HostV):
        return getattr(v.v, 'name', repr(v.v))
    return str(v)


def close(a, b, tol=1e-6, path=''):
    """structural comparison of deep values up to framework; None when equal, else a description"""
    if is_av(a) or is_av(b):
        x = a.a if is_av(a) else a
        y = b.a if is_av(b) else b
        if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
            try:
                x = np.asarray(raw(x))
                y = np.asarray(raw(y))
            except Exception:
                return '%s: array vs ragged sequence' % path
        if x is None or y is None or isinstance(x, (str, dict, HostV)) or isinstance(y, (str, dict, HostV)):
            return '%s: %s vs %s' % (path, kind(a), kind(b))
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return '%s: shape %s vs %s' % (path, x.shape, y.shape)
        if x.size == 0:
            return None
        if x.dtype == object or y.dtype == object:
            return None if str(x) == str(y) else '%s: objects differ' % path
        nx, ny = np.isnan(x), np.isnan(y)
        if (nx != ny).any():
            return '%s: NaN pattern differs' % path
        x, y = np.where(nx, 0, x), np.where(ny, 0, y)
        fin = np.isfinite(x) & np.isfinite(y)
        if (np.isfinite(x) != np.isfinite(y)).any():
            return '%s: infinity pattern differs' % path
        x, y = np.where(fin, x, 0), np.where(fin, y, 0)
        m = max(np.abs(x).max(), np.abs(y).max(), 1e-300)
        d = np.abs(x - y).max()
        if d > tol * m and d > 1e-13:
            return '%s: values differ (max |diff| %.3g, scale %.3g)' % (path, d, m)
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            ka = sorted(map(str, set(a) - set(b)))[:3]
            kb = sorted(map(str, set(b) - set(a)))[:3]
            return '%s: key sets differ (%s | %s)' % (path, ka, kb)
        for k in a:
            r = close(a[k], b[k], tol, '%s[%r]' % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: length %d vs %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = close(x, y, tol, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        if a == b or (a != a and b != b):
            return None
        if isinstance(a, int) and isinstance(b, int):
            return '%s: %r vs %r' % (path, a, b)
        if abs(a - b) <= tol * max(abs(a), abs(b)) or abs(a - b) < 1e-13:
            return None
        return '%s: %r vs %r' % (path, a, b)
    if isinstance(a, DT) and isinstance(b, DT):
        return None if a.name == b.name else '%s: dtype %s vs %s' % (path, a, b)
    if same(a, b):
        return None
    return '%s: %s vs %s' % (path, str(a)[:60], str(b)[:60])


def kind(a):
    return type(a).__name__ if not is_av(a) else 'array%s' % (a.a.shape,)
