"""Transfer functions for builtins, container methods and library calls."""
import builtins
import functools
import math

from .nodes import Node, Host, UNDEF, mk, is_const
from .hosts import (Ref, ListObj, DictObj, InstObj, ModuleVal, Ext, ClassVal, FuncVal, BoundMethod,
                    BoundBuiltin, SuperVal, Partial, RangeVal, SliceVal, ExcVal, Choice)


def is_exc_name(short):
    c = getattr(builtins, short, None)
    return isinstance(c, type) and issubclass(c, BaseException)


def fz(ip, args, kwargs):
    return (tuple(ip.freeze(a) for a in args),
            tuple((k, ip.freeze(v)) for k, v in sorted(kwargs.items(), key=lambda t: t[0])))


def lib(ip, name, args, kwargs):
    a, k = fz(ip, args, kwargs)
    n = mk('call', name, a, k, loc=ip.loc())
    ip.ext_calls.setdefault(name, set()).add(str(ip.loc()))
    return n


def map_segs(ip, segs, fn, used=frozenset()):
    """segs with fn(element) -> segs substituted for each element"""
    out = []
    for s in segs:
        if s.op == 'one':
            out += list(fn(s.args[0]))
        elif s.op == 'segloop':
            L = s.args[0]
            if L.binder in ip.binders:
                node = mk('seq', 'list', ip.freeze_segs((s,)))
                out += map_segs(ip, [mk('star', node)], fn)
                continue
            saved = ip.binders
            ip.binders = saved + (L.binder,)
            inner = map_segs(ip, s.args[1], fn)
            ip.binders = saved
            out.append(mk('segloop', L, tuple(inner), loc=L.loc))
        elif s.op == 'iteseg':
            out.append(mk('iteseg', s.args[0], tuple(map_segs(ip, s.args[1], fn)), tuple(map_segs(ip, s.args[2], fn))))
        elif s.op == 'star':
            L = ip.new_loop('for')
            L.count = ip.n('len', s.args[0])
            L.done = True
            el = ip.getitem(s.args[0], L.binder)
            saved = ip.binders
            ip.binders = saved + (L.binder,)
            inner = list(fn(el))
            ip.binders = saved
            out.append(mk('segloop', L, tuple(inner), loc=L.loc))
        elif s.op == 'keyed':
            out.append(mk('keyed', s.args[0], tuple(map_segs(ip, s.args[1], fn))))
        elif s.op == 'sorted':
            out.append(mk('sorted', tuple(map_segs(ip, s.args[0], fn)), s.args[1]))
        else:
            out.append(s)
    return out


def to_node(ip, v):
    """a sequence value as an indexable node"""
    if isinstance(v, Node):
        return v
    if isinstance(v, RangeVal):
        return v
    return ip.freeze(to_seq(ip, v))


def to_seq(ip, v):
    if isinstance(v, (tuple, RangeVal)):
        return v
    return ip.new_list_segs(ip.iter_segs(v))


def simple_loop(segs):
    """single for-loop with a single element and no carried state/break -> (L, element)"""
    if len(segs) == 1 and segs[0].op == 'segloop':
        L, inner = segs[0].args
        if L.kind == 'for' and L.brk is False and len(inner) == 1 and inner[0].op == 'one':
            return L, inner[0].args[0]
    return None


def b_enumerate(ip, v, start=0):
    items = None if isinstance(v, Choice) else ip.concrete_items(v)
    if items is not None:
        return ip.new_list([(ip.binop('add', start, i), x) for i, x in enumerate(items)], 'gen')
    if isinstance(v, Choice):
        return ip.branch(v.cond, lambda: b_enumerate(ip, v.a, start), lambda: b_enumerate(ip, v.b, start))
    segs = ip.iter_segs(v)
    if all(s.op == 'one' for s in segs):
        return ip.new_list([(ip.binop('add', start, i), s.args[0]) for i, s in enumerate(segs)], 'gen')
    sl = simple_loop(segs)
    if sl is not None and sl[0].binder not in ip.binders:
        L, el = sl
        return ip.new_list_segs([mk('segloop', L, (mk('one', (ip.binop('add', L.binder, start), el)),), loc=L.loc)], 'gen')
    node = ip.freeze(ip.new_list_segs(segs))
    if len(segs) == 1 and segs[0].op == 'star':
        node = segs[0].args[0]
    L = ip.new_loop('for')
    L.count = ip.n('len', node)
    L.done = True
    el = (ip.binop('add', L.binder, start), ip.getitem(node, L.binder))
    return ip.new_list_segs([mk('segloop', L, (mk('one', el),), loc=ip.loc())], 'gen')


def b_zip(ip, args):
    lists = []
    for v in args:
        if isinstance(v, Choice):
            v = ip.freeze(v)
        it = ip.concrete_items(v)
        if it is None:
            segs = ip.iter_segs(v)
            if all(s.op == 'one' for s in segs):
                it = [s.args[0] for s in segs]
                lists.append(('c', it))
            elif len(segs) == 1 and segs[0].op == 'star':
                lists.append(('n', segs[0].args[0]))
            else:
                lists.append(('n', ip.freeze(ip.new_list_segs(segs)), segs))
        else:
            lists.append(('c', it))
    if all(x[0] == 'c' for x in lists):
        return ip.new_list([tuple(t) for t in zip(*[x[1] for x in lists])], 'gen')
    if len(lists) == 1 and len(lists[0]) == 3:
        return ip.new_list_segs(map_segs(ip, lists[0][2], lambda e: [mk('one', (e,))]), 'gen')
    L = ip.new_loop('for')
    lens = []
    els = []
    for x in lists:
        if x[0] == 'c':
            lens.append(len(x[1]))
            ref = tuple(x[1])
            els.append(ip.select(ref, L.binder) if any(isinstance(e, Host) for e in ref) and ref else ip.n('getitem', ip.freeze(ref), L.binder))
        else:
            sl = simple_loop(x[2]) if len(x) == 3 else None
            lens.append(sl[0].count if sl else ip.n('len', x[1]))
            els.append(ip.getitem(x[1], L.binder))
    uniq = []
    for l in lens:
        if l not in uniq:
            uniq.append(l)
    L.count = uniq[0] if len(uniq) == 1 else ip.n('min', *uniq)
    L.done = True
    return ip.new_list_segs([mk('segloop', L, (mk('one', tuple(els)),), loc=ip.loc())], 'gen')


def b_product(ip, seqs):
    def rec(i, acc):
        if i == len(seqs):
            return [mk('one', tuple(acc))]
        v = seqs[i]
        segs = ip.iter_segs(v) if not isinstance(v, list) else v
        return map_segs(ip, segs, lambda e: rec(i + 1, acc + [e]))
    # one-shot iterables must be materialised once
    mats = []
    for v in seqs:
        mats.append(list(ip.iter_segs(v)))
    seqs = mats
    return ip.new_list_segs(rec(0, []), 'gen')


def b_sorted(ip, v, key=None, reverse=False):
    segs = ip.iter_segs(v)
    if all(s.op == 'one' for s in segs):
        items = [s.args[0] for s in segs]
        keys = [ip.call(key, [x], {}) if key is not None else x for x in items]
        if all(is_const(k) for k in keys) and isinstance(reverse, bool):
            try:
                order = sorted(range(len(items)), key=lambda i: keys[i], reverse=reverse)
                return ip.new_list([items[i] for i in order])
            except TypeError:
                pass
    out = map_segs(ip, segs, lambda e: [mk('keyed', ip.freeze(ip.call(key, [e], {}) if key is not None else e), (mk('one', e),))])
    return ip.new_list_segs([mk('sorted', tuple(out), ip.freeze(reverse))])


def b_minmax(ip, op, args, kwargs):
    key = kwargs.get('key')
    if len(args) == 1:
        items = ip.concrete_items(args[0])
        if items is None or (not items and 'default' in kwargs):
            if items is not None:
                return kwargs['default']
            seq = ip.freeze(to_seq(ip, args[0]))
            extra = (ip.freeze(kwargs['default']),) if 'default' in kwargs else ()
            if key is not None:
                return ip.n('call', 'builtins.%s_key' % op, (seq, ip.freeze(b_map(ip, key, [args[0]]))), ())
            return ip.n(op + 'seq', seq, extra)
        args = items
    if key is not None:
        args2 = [ip.call(key, [a], {}) for a in args]
        if all(is_const(a) for a in args2):
            f = min if op == 'min' else max
            return args[f(range(len(args)), key=lambda i: args2[i]) if False else [i for i in range(len(args)) if args2[i] == f(args2)][0]]
        return ip.n('call', 'builtins.%s_key' % op, (ip.freeze(tuple(args)), ip.freeze(tuple(args2))), ())
    if not args:
        ip.raise_exc('ValueError', ('min/max of empty',), implicit=True)
        return ip.opaque('min of empty')
    if len(args) == 1:
        return args[0]
    if all(is_const(a) for a in args):
        try:
            return (min if op == 'min' else max)(*args)
        except TypeError:
            ip.raise_exc('TypeError', (), implicit=True)
            return ip.opaque('min')
    return ip.n(op, *[ip.freeze(a) for a in args])


def b_map(ip, f, its):
    it = its[0] if len(its) == 1 else b_zip(ip, its)
    out = ip.new_list((), 'gen')

    def body(el):
        r = ip.call(f, [el] if len(its) == 1 else list(el) if isinstance(el, tuple) else [ip.getitem(el, i) for i in range(len(its))], {})
        if not ip.st.dead:
            ip.quiet_append(out, r)
    ip.run_loop(it, body, ip.fn_stack[-1].fid if ip.fn_stack else None)
    return out


def b_filter(ip, f, it):
    out = ip.new_list((), 'gen')

    def body(el):
        c = ip.truth(ip.call(f, [el], {}) if f is not None else el)
        if not ip.st.dead:
            ip.branch(c, lambda: ip.quiet_append(out, el), lambda: None)
    ip.run_loop(it, body, ip.fn_stack[-1].fid if ip.fn_stack else None)
    return out


def b_reduce(ip, f, it, init=UNDEF):
    fid = ip.new_frame(None, ip.frame_mod[ip.fn_stack[-1].fid])
    if init is UNDEF:
        items = ip.concrete_items(it)
        if items is None:
            node = ip.freeze(to_seq(ip, it))
            return ip.n('call', 'functools.reduce', (ip.freeze(f), node), ())
        if not items:
            ip.raise_exc('TypeError', ('reduce of empty',), implicit=True)
            return ip.opaque('reduce')
        acc = items[0]
        for x in items[1:]:
            acc = ip.call(f, [acc, x], {})
        return acc
    ip.st.frames[fid]['acc'] = init

    def body(el):
        r = ip.call(f, [ip.st.frames[fid]['acc'], el], {})
        if not ip.st.dead:
            ip.st.frames[fid]['acc'] = r
    ip.run_loop(it, body, fid)
    return ip.st.frames.get(fid, {}).get('acc')


def type_names(ip, t):
    """tuple of type designators or None"""
    if isinstance(t, tuple):
        out = []
        for x in t:
            r = type_names(ip, x)
            if r is None:
                return None
            out += r
        return out
    if isinstance(t, Ext):
        return [t.name]
    if isinstance(t, ClassVal):
        return [t]
    if isinstance(t, Choice):
        return None
    if isinstance(t, Node):
        if t.op == 'host':
            return type_names(ip, t.args[0])
        if t.op == 'call' and t.args[0] == 'builtins.type':
            return [t]
    if t is None:
        return ['builtins.NoneType']
    return None


ABSTRACT_NUM = {'numbers.Number': (int, float, complex), 'numbers.Integral': (int,), 'numbers.Real': (int, float),
                'numbers.Complex': (int, float, complex)}


def b_isinstance(ip, v, t):
    if isinstance(v, Choice):
        return ip.branch(v.cond, lambda: b_isinstance(ip, v.a, t), lambda: b_isinstance(ip, v.b, t))
    names = type_names(ip, t)
    if names is None:
        return ip.n('isinstance', ip.freeze(v), ip.freeze(t))
    if isinstance(v, Node):
        if v.op == 'host':
            return b_isinstance(ip, v.args[0], t)
        if v.op == 'seq':
            return ('builtins.' + ('list' if v.args[0] == 'gen' else v.args[0])) in names
        if v.op == 'dict':
            return 'builtins.dict' in names
        if v.op == 'atom' and v.args[1] in ('int', 'str') and all(isinstance(x, str) for x in names):
            ex = 3 if v.args[1] == 'int' else 'a'
            return b_isinstance(ip, ex, t)
        return ip.n('isinstance', v, tuple(sorted(x if isinstance(x, str) else getattr(x, 'qualname', str(x)) for x in names)))
    for x in names:
        if isinstance(x, ClassVal):
            if isinstance(v, Ref) and isinstance(ip.obj(v), InstObj) and x in ip.mro(ip.obj(v).cls):
                return True
            continue
        if isinstance(x, Node):
            continue
        py = getattr(builtins, x.split('.')[-1], None) if x.startswith('builtins.') else None
        if isinstance(py, type):
            if is_const(v) and isinstance(v, py):
                return True
            if isinstance(v, tuple) and py is tuple:
                return True
            if py is object:
                return True
            if isinstance(v, Ref):
                o = ip.obj(v)
                if isinstance(o, ListObj) and o.kind == py.__name__:
                    return True
                if isinstance(o, DictObj) and py is dict:
                    return True
            if isinstance(v, ClassVal) and py is type:
                return True
            if isinstance(v, SliceVal) and py is slice:
                return True
            if isinstance(v, RangeVal) and py is range:
                return True
            if isinstance(v, ExcVal) and is_exc_name(v.name) and issubclass(getattr(builtins, v.name), py):
                return True
        if x == 'builtins.NoneType' and v is None:
            return True
        if x in ABSTRACT_NUM and is_const(v) and isinstance(v, ABSTRACT_NUM[x]):
            return True
        short = x.split('.')[-1]
        if isinstance(v, Ref):
            o = ip.obj(v)
            if isinstance(o, InstObj):
                if any(isinstance(c, Ext) and c.name == x for c in ip.mro(o.cls)):
                    return True
            if isinstance(o, ListObj) and short in ('Sequence', 'Iterable', 'Sized', 'Collection', 'MutableSequence') and o.kind == 'list':
                return True
            if isinstance(o, DictObj) and short in ('Mapping', 'Iterable', 'MutableMapping', 'Sized', 'Collection'):
                return True
        if isinstance(v, tuple) and short in ('Sequence', 'Iterable', 'Sized', 'Collection'):
            return True
        if isinstance(v, str) and short in ('Sequence', 'Iterable', 'Sized', 'Collection'):
            return True
    return False


def b_type(ip, v):
    if isinstance(v, Choice):
        return ip.branch(v.cond, lambda: b_type(ip, v.a), lambda: b_type(ip, v.b))
    if isinstance(v, Ref):
        o = ip.obj(v)
        if isinstance(o, InstObj):
            return o.cls
        return Ext('builtins.dict' if isinstance(o, DictObj) else 'builtins.' + ('generator' if o.kind == 'gen' else o.kind))
    if isinstance(v, tuple):
        return Ext('builtins.tuple')
    if is_const(v):
        return Ext('builtins.' + type(v).__name__)
    if isinstance(v, Node) and v.op == 'host':
        return b_type(ip, v.args[0])
    if isinstance(v, Node):
        return ip.n('call', 'builtins.type', (v,), ())
    return Ext('builtins.object')


def b_hasattr(ip, v, name):
    if isinstance(v, Choice):
        return ip.branch(v.cond, lambda: b_hasattr(ip, v.a, name), lambda: b_hasattr(ip, v.b, name))
    if not isinstance(name, str):
        return ip.n('call', 'builtins.hasattr', (ip.freeze(v), ip.freeze(name)), ())
    if isinstance(v, Ref):
        o = ip.obj(v)
        if isinstance(o, InstObj):
            if name in o.attrs:
                a = o.attrs[name]
                if isinstance(a, Choice) and (a.a is UNDEF or a.b is UNDEF):
                    return ip.truth(a.cond) if a.b is UNDEF else ip.compare('eq', ip.truth(a.cond), False)
                return a is not UNDEF
            if ip.lookup_class(o.cls, name) is not None:
                return True
            return any(e.op == 'dset' and is_const(e.args[0]) and e.args[0] == name for e in o.dyn)
        return hasattr({'list': list, 'tuple': tuple, 'set': set, 'gen': type(i for i in ())}.get(getattr(o, 'kind', None), dict), name)
    if isinstance(v, ClassVal):
        return ip.lookup_class(v, name) is not None
    if isinstance(v, ModuleVal):
        return name in ip.st.frames[v.fid] or (v.name + '.' + name) in ip.project.modules
    if is_const(v) or isinstance(v, tuple):
        return hasattr(v, name)
    if isinstance(v, Node) and v.op != 'host':
        return ip.n('call', 'builtins.hasattr', (v, name), ())
    if isinstance(v, FuncVal):
        return name in v.extra or hasattr(b_hasattr, name)
    return ip.n('call', 'builtins.hasattr', (ip.freeze(v), name), ())


def b_setattr(ip, obj, name, v):
    if isinstance(name, str):
        ip.setattr(obj, name, v)
        return None
    if isinstance(obj, Ref) and isinstance(ip.obj(obj), InstObj):
        ip.note_mutation(obj, 'setattr dynamic')
        o = ip.obj(obj)
        ip.st.heap[obj.oid] = InstObj(o.cls, o.attrs, o.dyn + (mk('dset', ip.freeze(name), v),), o.binders)
        return None
    ip.event('unsupported', 'setattr')
    return None


def copy_obj(ip, v, deep, memo=None):
    if isinstance(v, Ref):
        o = ip.obj(v)
        if isinstance(o, ListObj):
            segs = o.segs
            if deep:
                segs = tuple(mk('one', copy_obj(ip, s.args[0], True)) if s.op == 'one' else s for s in segs)
            return ip.new_list_segs(segs, o.kind)
        if isinstance(o, DictObj):
            es = o.entries
            if deep:
                es = tuple(mk('dset', e.args[0], copy_obj(ip, e.args[1], True)) if e.op == 'dset' else e for e in es)
            r = ip.new_oid(DictObj(es, ip.binders, o.factory))
            return r
        if isinstance(o, InstObj):
            at = dict(o.attrs)
            if deep:
                at = {k: copy_obj(ip, x, True) for k, x in at.items()}
            return ip.new_oid(InstObj(o.cls, at, o.dyn, ip.binders))
    if isinstance(v, tuple) and deep:
        return tuple(copy_obj(ip, x, True) for x in v)
    if isinstance(v, Choice):
        return ip.branch(v.cond, lambda: copy_obj(ip, v.a, deep), lambda: copy_obj(ip, v.b, deep))
    if isinstance(v, Node) and v.op not in ('host',):
        return ip.n('call', 'copy.copy', (v,), ())
    return v


def new_set(ip, segs):
    if all(s.op == 'one' and is_const(s.args[0]) for s in segs):
        seen, out = [], []
        for s in segs:
            if s.args[0] not in seen:
                seen.append(s.args[0])
                out.append(s)
        segs = out
    return ip.new_list_segs(segs, 'set')


BUILTIN_FOLD = {'abs': abs, 'int': int, 'float': float, 'bool': bool, 'str': str, 'round': round, 'divmod': divmod, 'pow': pow,
                'repr': repr, 'complex': complex, 'ord': ord, 'chr': chr, 'hash': hash, 'bin': bin}


def call_ext(ip, name, args, kwargs):
    r = _call_ext(ip, name, args, kwargs)
    return r


# calls that read or write state outside the objects they are given
EFFECTS = ('random.', 'numpy.random.', 'time.', 'datetime.', 'uuid.', 'os.environ', 'os.getenv', 'os.putenv', 'os.getpid', 'os.urandom', 'secrets.', 'socket.',
           'torch.rand', 'torch.manual_seed', 'torch.set_', 'torch.seed', 'torch.use_deterministic', 'torch.normal', 'torch.bernoulli',
           'tensorflow.random.', 'tensorflow.config.', 'jax.random.', 'jax.config.', 'numpy.seterr', 'numpy.set', 'sys.set', 'threading.get_ident', 'gc.', 'platform.')


# operations on the file system and the environment: ordered, unlike the pure library calls
OSCALLS = ('os.', 'shutil.', 'builtins.open', 'io.open', 'tempfile.', 'sa_mark.os', 'pathlib.')
OSPURE = ('os.path.join', 'os.path.dirname', 'os.path.basename', 'os.path.normpath', 'os.path.isabs', 'os.path.split', 'os.path.splitext', 'os.fspath', 'os.path.commonpath')


def oscall(ip, name, args, kwargs):
    ip._osseq = getattr(ip, '_osseq', 0) + 1
    n = ip.n('oscall', 'load' if ip.in_load else 'run', ip._osseq, name, tuple(ip.freeze(a) for a in args), tuple((k, ip.freeze(v)) for k, v in sorted(kwargs.items())))
    ip.event('os', (n,))
    return n


def _call_ext(ip, name, args, kwargs):
    ip.ext_calls.setdefault(name, set()).add(str(ip.loc()))
    if name.startswith(OSCALLS) and name not in OSPURE and not is_exc_name(name.split('.')[-1]):
        if name.startswith(EFFECTS):
            ip.event('effect', (name,))
        return oscall(ip, name, args, kwargs)
    if name.startswith('builtins.'):
        return call_builtin(ip, name[9:], args, kwargs)
    if name == 'sa_mark.mark':
        ip.mark(args[0])
        return None
    if name.startswith('torch.') and name.endswith(('.Parameter', '.UninitializedParameter')):
        ip.event('register_other', ('trainable parameter',))
    if name == 'sa_mark.track':
        ip.tracking = True
        return None
    if name == 'sa_mark.applied':
        return ip.last_function
    if name == 'sa_mark.interfere':
        from .interf import Interference
        ip.interf = Interference(ip, {args[i]: args[i + 1] for i in range(0, len(args), 2)}, [kwargs['exclude']] if 'exclude' in kwargs else [])
        return None
    if name == 'sa_mark.calm':
        ip.interf = None
        return None
    if name == 'sa_mark.replica':
        o = ip.obj(args[0])

        def scale(e):
            if e.op == 'dset':
                return mk('dset', e.args[0], mk('mul', args[1], ip.freeze(e.args[1]), loc=ip.loc()))
            if e.op == 'dite':
                return mk('dite', e.args[0], tuple(scale(x) for x in e.args[1]), tuple(scale(x) for x in e.args[2]))
            if e.op == 'dloop':
                return mk('dloop', e.args[0], tuple(scale(x) for x in e.args[1]))
            return e
        return ip.new_oid(InstObj(o.cls, dict(o.attrs), tuple(scale(e) for e in o.dyn), o.binders))
    if name.startswith(EFFECTS) and not (name in ('numpy.random.RandomState', 'numpy.random.default_rng') and args and is_const(args[0])):
        ip.event('effect', (name,))
    short = name.split('.')[-1]
    top = name.split('.')[0]
    # distribute over host choices in the first argument
    if top == 'itertools':
        if short == 'product':
            rep = kwargs.get('repeat', 1)
            if isinstance(rep, int):
                seqs = []
                for _ in range(rep):
                    seqs += list(args)
                return b_product(ip, seqs)
        if name == 'itertools.chain':
            segs = []
            for a in args:
                segs += ip.iter_segs(a)
            return ip.new_list_segs(segs, 'gen')
        if name == 'itertools.chain.from_iterable':
            return ip.new_list_segs(map_segs(ip, ip.iter_segs(args[0]), lambda e: ip.iter_segs(e)), 'gen')
        if short in ('combinations', 'permutations', 'combinations_with_replacement', 'accumulate', 'islice', 'starmap', 'repeat', 'takewhile', 'dropwhile'):
            items = ip.concrete_items(args[0]) if args else None
            import itertools as it
            if short == 'starmap':
                return b_map_star(ip, args[0], args[1])
            if items is not None and all(is_const(a) for a in args[1:]) and short in ('combinations', 'permutations', 'combinations_with_replacement', 'islice'):
                return ip.new_list([x if short == 'islice' else tuple(x) for x in getattr(it, short)(items, *args[1:])], 'gen')
            return ip.new_list_segs([mk('star', lib(ip, name, [to_seq(ip, args[0])] + list(args[1:]), kwargs))], 'gen')
    if name == 'functools.partial':
        return Partial(args[0], list(args[1:]), kwargs)
    if name == 'functools.reduce':
        return b_reduce(ip, *args)
    if name in ('functools.wraps', 'functools.lru_cache', 'functools.cache', 'contextlib.contextmanager'):
        if args and isinstance(args[0], FuncVal):
            args[0].decorators += (name,)
            return args[0] if name != 'functools.wraps' else Partial(Ext('builtins.$identity'), [], {})
        return Partial(Ext('builtins.$decorate'), [name], {})
    if name in ('collections.OrderedDict',):
        return call_builtin(ip, 'dict', args, kwargs)
    if name == 'collections.defaultdict':
        d = call_builtin(ip, 'dict', args[1:], kwargs)
        o = ip.obj(d)
        ip.st.heap[d.oid] = DictObj(o.entries, o.binders, args[0] if args else None)
        return d
    if name == 'collections.Counter' and args:
        items = ip.concrete_items(args[0])
        if items is not None and all(is_const(x) for x in items):
            c = {}
            for x in items:
                c[x] = c.get(x, 0) + 1
            return ip.new_dict(list(c.items()))
        return lib(ip, name, [to_seq(ip, args[0])], kwargs)
    if name == 'importlib.import_module':
        if args and isinstance(args[0], str):
            nm = args[0]
            if nm.startswith('.'):
                pk = args[1] if len(args) > 1 else kwargs.get('package')
                if isinstance(pk, str):
                    lev = len(nm) - len(nm.lstrip('.'))
                    parts = pk.split('.')
                    parts = parts[:len(parts) - (lev - 1)]
                    nm = '.'.join(parts + [nm.lstrip('.')])
            m = ip.import_module(nm)
            ip.event('import', nm)
            if m is None:
                ip.raise_exc('ModuleNotFoundError', (nm,), implicit=True)
                return ip.opaque('missing module ' + nm)
            return m
        return lib(ip, name, args, kwargs)
    if name in ('copy.copy', 'copy.deepcopy'):
        return copy_obj(ip, args[0], name.endswith('deepcopy'))
    if name == 'warnings.warn':
        ip.event('warn', tuple(ip.freeze(a) for a in args))
        return None
    if top == 'warnings':
        return None
    if top == 'math' and all(is_const(a) and isinstance(a, (int, float)) for a in args) and not kwargs:
        f = getattr(math, short, None)
        if callable(f):
            try:
                return f(*args)
            except (ValueError, OverflowError, TypeError):
                ip.raise_exc('ValueError', ('math domain',), implicit=True)
                return ip.opaque('math')
    if top in ('numpy', 'jax') and short in ('sqrt', 'log2', 'floor', 'ceil', 'log', 'exp', 'abs', 'prod', 'max', 'min') and len(args) == 1 and not kwargs \
            and isinstance(args[0], (int, float)) and not isinstance(args[0], bool):
        try:
            v = args[0]
            return {'sqrt': lambda: math.sqrt(v), 'log2': lambda: math.log2(v), 'floor': lambda: float(math.floor(v)),
                    'ceil': lambda: float(math.ceil(v)), 'log': lambda: math.log(v), 'exp': lambda: math.exp(v), 'abs': lambda: abs(v),
                    'prod': lambda: v, 'max': lambda: v, 'min': lambda: v}[short]()
        except (ValueError, OverflowError):
            return ip.opaque('numpy scalar domain')
    if name in ('packaging.version.parse', 'packaging.version.Version', 'distutils.version.LooseVersion') and args and isinstance(args[0], str):
        import re
        return tuple(int(x) for x in re.findall(r'\d+', args[0])[:3])
    if name == 'torch.is_tensor' or name == 'tensorflow.is_tensor' or name == 'torch.is_complex' or name == 'torch.is_floating_point':
        if args and (is_const(args[0]) or isinstance(args[0], (tuple, Ref))):
            return False
    if 'out' in kwargs and isinstance(kwargs['out'], Node):
        out = kwargs['out']
        kw = {k: v for k, v in kwargs.items() if k != 'out'}
        ip.event('inplace', (out, 'out='))
        n = lib(ip, name, args, kw)
        ip.replace_everywhere(out, n)
        return n
    if name in ('numpy.copyto',) and args and isinstance(args[0], Node):
        ip.event('inplace', (args[0], 'copyto'))
        ip.replace_everywhere(args[0], ip.freeze(args[1]))
        return None
    if short in ('fill_diagonal', 'put_along_axis', 'place', 'putmask', 'put') and top == 'numpy' and args and isinstance(args[0], Node):
        ip.event('inplace', (args[0], short))
        n = lib(ip, name, args, kwargs)
        ip.replace_everywhere(args[0], n)
        return None
    if name in ('torch.nn.Module.__init__', 'tensorflow.Module.__init__', 'tensorflow.keras.layers.Layer.__init__',
                'builtins.object.__init__', 'object.__init__') or (short == '__init__' and args and isinstance(args[0], Ref)):
        ip.event('extinit', (name, tuple(ip.freeze(a) for a in args[1:]), tuple(sorted(kwargs))))
        return None
    if short in EXT_METHOD_SHORTS and args and isinstance(args[0], Ref) and isinstance(ip.obj(args[0]), InstObj):
        return call_bound(ip, BoundBuiltin(args[0], '@' + name), args[1:], kwargs)
    if is_exc_name(short) and top not in ('numpy', 'torch', 'tensorflow', 'jax', 'scipy'):
        return ExcVal(short, tuple(ip.freeze(a) for a in args), ip.loc())
    # a callable passed to a library control-flow combinator is opaque but kept
    return lib(ip, name, args, kwargs)


EXT_METHOD_SHORTS = {'register_buffer', 'register_parameter', 'named_buffers', 'buffers', 'get_params', 'set_params', 'build', 'call', 'get_config'}


def b_map_star(ip, f, it):
    out = ip.new_list((), 'gen')

    def body(el):
        items = ip.concrete_items(el)
        r = ip.call(f, items, {}) if items is not None else ip.opaque('starmap')
        if not ip.st.dead:
            ip.quiet_append(out, r)
    ip.run_loop(it, body, ip.fn_stack[-1].fid if ip.fn_stack else None)
    return out


def call_builtin(ip, name, args, kwargs):
    if name == '$identity':
        return args[0]
    if name == '$decorate':
        if len(args) > 1 and isinstance(args[1], FuncVal):
            args[1].decorators += (args[0],)
            return args[1]
        return args[-1]
    if name == 'len':
        return ip.length(args[0])
    if name == 'range':
        a = [x for x in args]
        a = [ip.freeze(x) if isinstance(x, Choice) else x for x in a]
        if len(a) == 1:
            return RangeVal(0, a[0], 1)
        if len(a) == 2:
            return RangeVal(a[0], a[1], 1)
        return RangeVal(*a)
    if name == 'enumerate':
        return b_enumerate(ip, args[0], args[1] if len(args) > 1 else kwargs.get('start', 0))
    if name == 'zip':
        if any(isinstance(x, Node) and x.op == 'starargs' for x in args):
            frz = tuple(x if isinstance(x, Node) and x.op == "starargs" else ip.freeze(to_seq(ip, x)) for x in args)
            return ip.new_list_segs([mk('star', ip.n("call", "builtins.zip", frz, ()))], 'gen')
        return b_zip(ip, args)
    if name in ('list', 'iter', 'tuple', 'set', 'frozenset', 'reversed'):
        if not args:
            return () if name == 'tuple' else ip.new_list((), 'list' if name == 'list' else 'set')
        v = args[0]
        if isinstance(v, Choice):
            return ip.branch(v.cond, lambda: call_builtin(ip, name, [v.a], kwargs), lambda: call_builtin(ip, name, [v.b], kwargs))
        if name == 'iter':
            return ip.new_list_segs(ip.iter_segs(v), 'gen')
        if name == 'reversed':
            items = ip.concrete_items(v)
            if items is not None:
                return ip.new_list(list(reversed(items)), 'gen')
            if isinstance(v, RangeVal) and isinstance(v.s, int) and v.s == 1:
                return RangeVal(ip.binop('sub', v.b, 1), ip.binop('sub', v.a, 1), -1)
            return ip.new_list_segs([mk('star', ip.n('call', 'builtins.reversed', (ip.freeze(to_seq(ip, v)),), ()))], 'gen')
        if isinstance(v, Node) and name == 'tuple' and v.op not in ('seq',):
            items = ip.concrete_items(v)
            if items is not None:
                return tuple(items)
            return ip.n('call', 'builtins.tuple', (v,), ())
        segs = ip.iter_segs(v)
        if name in ('set', 'frozenset'):
            return new_set(ip, segs)
        if name == 'tuple':
            if all(s.op == 'one' for s in segs):
                return tuple(s.args[0] for s in segs)
            return ip.new_list_segs(segs, 'tuple')
        return ip.new_list_segs(segs)
    if name == 'dict':
        d = ip.new_dict()
        if args:
            v = args[0]
            if isinstance(v, Choice):
                v = ip.freeze(v)
            if (isinstance(v, Ref) and isinstance(ip.obj(v), DictObj)) or (isinstance(v, Node) and v.op == 'dict'):
                ents = ip.obj(v).entries if isinstance(v, Ref) else v.args[0]
                ip.st.heap[d.oid] = DictObj(ents, ip.binders)
            elif isinstance(v, Node):
                ip.st.heap[d.oid] = DictObj((mk('dbase', v),), ip.binders)
            else:
                def body(el):
                    k, x = (el if isinstance(el, tuple) and len(el) == 2 else (ip.getitem(el, 0), ip.getitem(el, 1)))
                    o = ip.obj(d)
                    kk = k if is_const(k) or isinstance(k, Host) else ip.freeze(k)
                    ip.st.heap[d.oid] = DictObj(o.entries + (mk('dset', kk, x),), o.binders)
                ip.run_loop(v, body, ip.fn_stack[-1].fid)
        for k, v in kwargs.items():
            if k == '**':
                o = ip.obj(d)
                ip.st.heap[d.oid] = DictObj(o.entries + (mk('dbase', v),), o.binders)
            else:
                ip.setitem(d, k, v)
        return d
    if name == 'sorted':
        return b_sorted(ip, args[0], kwargs.get('key'), kwargs.get('reverse', False))
    if name in ('min', 'max'):
        return b_minmax(ip, name, args, kwargs)
    if name == 'sum':
        start = args[1] if len(args) > 1 else kwargs.get('start', 0)
        items = ip.concrete_items(args[0])
        if items is not None:
            acc = start
            for x in items:
                acc = ip.binop('add', acc, x)
            return acc
        return ip.n('call', 'builtins.sum', (ip.freeze(to_seq(ip, args[0])), ip.freeze(start)), ())
    if name in ('any', 'all'):
        items = ip.concrete_items(args[0])
        if items is not None:
            from .interp import conj, disj
            return (disj if name == 'any' else conj)([ip.truth(x) for x in items])
        segs = ip.iter_segs(args[0])
        segs = map_segs(ip, segs, lambda e: [mk('one', ip.truth(e))])
        return ip.n('truth', ip.n('call', 'builtins.' + name, (ip.freeze(ip.new_list_segs(segs)),), ()))
    if name == 'map':
        return b_map(ip, args[0], args[1:])
    if name == 'filter':
        return b_filter(ip, args[0], args[1])
    if name == 'next':
        v = args[0]
        items = ip.concrete_items(v)
        if isinstance(v, Ref) and isinstance(ip.obj(v), ListObj):
            o = ip.obj(v)
            if o.segs and o.segs[0].op == 'one':
                r = o.segs[0].args[0]
                ip.st.heap[v.oid] = ListObj(o.kind, o.segs[1:], o.binders)
                return r
            if not o.segs:
                if len(args) > 1:
                    return args[1]
                ip.raise_exc('StopIteration', (), implicit=True)
                return ip.opaque('next of empty')
        node = ip.freeze(v)
        r = ip.n('getitem', node, 0) if len(args) == 1 else ip.n('call', 'builtins.next', (node, ip.freeze(args[1])), ())
        if isinstance(v, Ref) and isinstance(ip.obj(v), ListObj):
            o = ip.obj(v)
            ip.st.heap[v.oid] = ListObj(o.kind, [mk('star', ip.n('getitem', node, mk('slice', 1, None, None)))], o.binders)
        return r
    if name == 'isinstance':
        return b_isinstance(ip, args[0], args[1])
    if name == 'issubclass':
        a, b = args[0], args[1]
        if isinstance(a, ClassVal):
            bs = b if isinstance(b, tuple) else (b,)
            return any(x in ip.mro(a) for x in bs)
        return ip.n('call', 'builtins.issubclass', (ip.freeze(a), ip.freeze(b)), ())
    if name == 'getattr':
        if isinstance(args[1], str):
            if len(args) > 2:
                v = args[0]
                if isinstance(v, Node) and v.op != 'host':
                    return ip.n('call', 'builtins.getattr', (v, args[1], ip.freeze(args[2])), ())
                return ip.getattr(v, args[1], args[2])
            return ip.getattr(args[0], args[1])
        if isinstance(args[0], Ref) and isinstance(ip.obj(args[0]), InstObj):
            o = ip.obj(args[0])
            return ip.n('getitem', mk('dict', ip.freeze_entries(o.dyn)), ip.freeze(args[1]))
        return ip.n('call', 'builtins.getattr', tuple(ip.freeze(a) for a in args), ())
    if name == 'setattr':
        return b_setattr(ip, *args)
    if name == 'hasattr':
        return b_hasattr(ip, *args)
    if name == 'delattr':
        return None
    if name == 'type':
        return b_type(ip, args[0])
    if name == 'callable':
        v = args[0]
        if isinstance(v, (FuncVal, BoundMethod, Partial, ClassVal, Ext, BoundBuiltin)):
            return True
        if isinstance(v, Node):
            return ip.n('call', 'builtins.callable', (v,), ())
        if isinstance(v, Ref) and isinstance(ip.obj(v), InstObj):
            return ip.lookup_class(ip.obj(v).cls, '__call__') is not None
        return False
    if name == 'print':
        return None
    if name == 'slice':
        a = list(args)
        if len(a) == 1:
            return SliceVal(None, a[0], None)
        return SliceVal(a[0], a[1], a[2] if len(a) > 2 else None)
    if name in ('object', 'object.__new__'):
        return ip.new_oid(InstObj(ClassVal('object', None, None, [], {}), {}, (), ip.binders)) if name == 'object' else (
            ip.new_oid(InstObj(args[0], {}, (), ip.binders)) if args and isinstance(args[0], ClassVal) else ip.opaque('object'))
    if name in ('object.__init__', 'object.__setattr__', 'object.__init_subclass__'):
        if name == 'object.__setattr__' and len(args) == 3 and isinstance(args[1], str):
            ip.setattr(args[0], args[1], args[2])
        return None
    if name == 'id':
        return ip.n('call', 'builtins.id', (ip.freeze(args[0]),), ())
    if name == 'bool':
        return ip.truth(args[0]) if args else False
    if name == 'dict.fromkeys':
        items = ip.concrete_items(args[0])
        if items is not None:
            return ip.new_dict([(k, args[1] if len(args) > 1 else None) for k in items])
    if name == 'property':
        from .hosts import PropertyVal
        return PropertyVal(args[0], args[1] if len(args) > 1 else kwargs.get('fset'))
    if name == 'staticmethod':
        from .hosts import StaticM
        return StaticM(args[0])
    if name == 'classmethod':
        from .hosts import ClassM
        return ClassM(args[0])
    if name == 'super':
        return ip.opaque('super call')
    f = BUILTIN_FOLD.get(name)
    if f is not None:
        if all(is_const(a) for a in args) and all(is_const(v) for v in kwargs.values()) and name != 'hash':
            try:
                return f(*args, **kwargs)
            except (ValueError, TypeError, OverflowError) as e:
                ip.raise_exc(type(e).__name__, (str(e),), implicit=True)
                return ip.opaque(name + ' of constant')
        if len(args) == 1 and isinstance(args[0], Choice):
            v = args[0]
            return ip.branch(v.cond, lambda: call_builtin(ip, name, [v.a], kwargs), lambda: call_builtin(ip, name, [v.b], kwargs))
        if name in ('str', 'repr') and isinstance(args[0], ClassVal):
            return args[0].qualname
        a, k = fz(ip, args, kwargs)
        return ip.n('call', 'builtins.' + name, a, k)
    if is_exc_name(name):
        return ExcVal(name, tuple(ip.freeze(a) for a in args), ip.loc())
    if '.' in name:
        cls, meth = name.split('.', 1)
        if args:
            return call_bound(ip, BoundBuiltin(args[0], meth), list(args[1:]), kwargs)
    return lib(ip, 'builtins.' + name, args, kwargs)


def list_method(ip, ref, name, args, kwargs):
    o = ip.obj(ref)
    if name in ('append', 'extend', 'insert', 'pop', 'sort', 'reverse', 'remove', 'clear', 'add', 'update', 'discard', 'appendleft', 'popleft'):
        ip.note_mutation(ref, name)
    if name in ('append', 'add'):
        ip.st.heap[ref.oid] = ListObj(o.kind, o.segs + (mk('one', args[0]),), o.binders)
        return None
    if name in ('extend', 'update'):
        v = args[0]
        if isinstance(v, Choice):
            ip.branch(v.cond, lambda: list_method(ip, ref, name, [v.a], {}), lambda: list_method(ip, ref, name, [v.b], {}))
            return None
        segs = ip.iter_segs(v)
        o = ip.obj(ref)
        ip.st.heap[ref.oid] = ListObj(o.kind, o.segs + tuple(segs), o.binders)
        return None
    if name in ('insert', 'appendleft'):
        if name == 'appendleft':
            args = [0] + list(args)
        if args[0] == 0 and isinstance(args[0], int):
            ip.st.heap[ref.oid] = ListObj(o.kind, (mk('one', args[1]),) + o.segs, o.binders)
            return None
        items = ip.concrete_items(ref)
        if items is not None and isinstance(args[0], int):
            items = list(items)
            items.insert(args[0], args[1])
            ip.st.heap[ref.oid] = ListObj(o.kind, [mk('one', x) for x in items], o.binders)
            return None
        node = ip.n('listmeth', ip.freeze(ref), 'insert', tuple(ip.freeze(a) for a in args))
        ip.st.heap[ref.oid] = ListObj(o.kind, [mk('star', node)], o.binders)
        return None
    if name in ('pop', 'popleft'):
        k = args[0] if args else (-1 if name == 'pop' else 0)
        segs = o.segs
        if isinstance(k, int) and segs:
            if k == -1 and segs[-1].op == 'one':
                ip.st.heap[ref.oid] = ListObj(o.kind, segs[:-1], o.binders)
                return segs[-1].args[0]
            if k == 0 and segs[0].op == 'one':
                ip.st.heap[ref.oid] = ListObj(o.kind, segs[1:], o.binders)
                return segs[0].args[0]
            if all(s.op == 'one' for s in segs) and -len(segs) <= k < len(segs):
                l = list(segs)
                r = l.pop(k)
                ip.st.heap[ref.oid] = ListObj(o.kind, l, o.binders)
                return r.args[0]
        if not segs:
            ip.raise_exc('IndexError', ('pop from empty list',), implicit=True)
            return ip.opaque('pop')
        node = ip.freeze(ref)
        ip.st.heap[ref.oid] = ListObj(o.kind, [mk('star', ip.n('listmeth', node, 'pop', (ip.freeze(k),)))], o.binders)
        return ip.n('getitem', node, ip.freeze(k))
    if name == 'sort':
        r = b_sorted(ip, ref, kwargs.get('key'), kwargs.get('reverse', False))
        ip.st.heap[ref.oid] = ListObj(o.kind, ip.obj(r).segs, o.binders)
        return None
    if name == 'reverse':
        items = ip.concrete_items(ref)
        if items is not None:
            ip.st.heap[ref.oid] = ListObj(o.kind, [mk('one', x) for x in reversed(items)], o.binders)
        else:
            ip.st.heap[ref.oid] = ListObj(o.kind, [mk('star', ip.n('call', 'builtins.reversed', (ip.freeze(ref),), ()))], o.binders)
        return None
    if name == 'clear':
        ip.st.heap[ref.oid] = ListObj(o.kind, (), o.binders)
        return None
    if name in ('remove', 'discard'):
        items = ip.concrete_items(ref)
        if items is not None and all(is_const(x) for x in items) and is_const(args[0]):
            items = list(items)
            if args[0] in items:
                items.remove(args[0])
            elif name == 'remove':
                ip.raise_exc('ValueError', ('list.remove',), implicit=True)
            ip.st.heap[ref.oid] = ListObj(o.kind, [mk('one', x) for x in items], o.binders)
            return None
        node = ip.n('listmeth', ip.freeze(ref), name, tuple(ip.freeze(a) for a in args))
        ip.st.heap[ref.oid] = ListObj(o.kind, [mk('star', node)], o.binders)
        return None
    if name == 'copy':
        return ip.new_list_segs(o.segs, o.kind)
    if name in ('index', 'count'):
        items = ip.concrete_items(ref)
        if items is not None and all(is_const(x) for x in items) and is_const(args[0]):
            if name == 'index' and args[0] not in items:
                ip.raise_exc('ValueError', ('not in list',), implicit=True)
                return ip.opaque('index')
            return getattr(items, name)(args[0])
        return ip.n('mcall', ip.freeze(ref), name, tuple(ip.freeze(a) for a in args), ())
    if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'symmetric_difference'):
        a = ip.concrete_items(ref)
        bs = [ip.concrete_items(x) for x in args]
        if a is not None and all(is_const(x) for x in a) and all(b is not None and all(is_const(y) for y in b) for b in bs):
            r = getattr(set(a), name)(*[set(b) for b in bs])
            if isinstance(r, bool):
                return r
            return ip.new_list(sorted(r, key=lambda x: (str(type(x)), x)), 'set')
        if name == 'union':
            segs = list(o.segs)
            for x in args:
                segs += ip.iter_segs(x)
            return new_set(ip, segs)
        return ip.n('mcall', ip.freeze(ref), name, tuple(ip.freeze(a) for a in args), ())
    if name in ('__iter__',):
        return ip.new_list_segs(o.segs, 'gen')
    if name == '__len__':
        return ip.length(ref)
    if name == '__getitem__':
        return ip.getitem(ref, args[0])
    if name == '__contains__':
        return ip.contains_val(args[0], ref)
    if name in ('close', 'send', '__next__') and o.kind == 'gen':
        if name == 'close':
            return None
        return call_builtin(ip, 'next', [ref], {})
    if not hasattr({'list': list, 'set': set, 'tuple': tuple}.get(o.kind, list), name):
        ip.raise_exc('AttributeError', ('%s object has no attribute %s' % (o.kind, name),), implicit=True)
        return ip.opaque('list method ' + name)
    return ip.n('mcall', ip.freeze(ref), name, tuple(ip.freeze(a) for a in args), ())


def dict_method(ip, ref, name, args, kwargs):
    o = ip.obj(ref)
    if name == 'get':
        k = args[0]
        k = k if is_const(k) or isinstance(k, Host) else ip.freeze(k)
        dflt = args[1] if len(args) > 1 else kwargs.get('default')
        r = ip.dict_find(o.entries, k)
        if r[0] == 'yes':
            return r[1]
        if r[0] == 'no' and is_const(k):
            return dflt
        if isinstance(k, Node):
            return ip.n('dictget', ip.freeze(ref), k, ip.freeze(dflt))
        return ip.n('dictget', ip.freeze(ref), ip.freeze(k), ip.freeze(dflt))
    if name in ('items', 'keys', 'values'):
        return ip.new_list_segs(ip.dict_segs(o.entries, {'items': 'i', 'keys': 'k', 'values': 'v'}[name]), 'view')
    if name == 'update':
        ip.note_mutation(ref, 'update')
        if args:
            v = args[0]
            if isinstance(v, Choice):
                v = ip.freeze(v)
            if isinstance(v, Ref) and isinstance(ip.obj(v), DictObj):
                ents = ip.obj(v).entries
            elif isinstance(v, Node) and v.op == 'dict':
                ents = v.args[0]
            elif isinstance(v, Node):
                ents = (mk('dbase', v),)
            else:
                t = call_builtin(ip, 'dict', [v], {})
                ents = ip.obj(t).entries
            for e in ents:
                if e.op == 'dset':
                    ip.setitem(ref, e.args[0], e.args[1])
                else:
                    o = ip.obj(ref)
                    ip.st.heap[ref.oid] = DictObj(o.entries + (e,), o.binders, o.factory)
        for k, v in kwargs.items():
            ip.setitem(ref, k, v)
        return None
    if name == 'copy':
        return ip.new_oid(DictObj(o.entries, ip.binders, o.factory))
    if name == 'pop':
        ip.note_mutation(ref, 'pop')
        k = args[0]
        if is_const(k):
            r = ip.dict_find(o.entries, k)
            if r[0] == 'yes' and all(e.op == 'dset' and is_const(e.args[0]) for e in o.entries):
                ip.st.heap[ref.oid] = DictObj([e for e in o.entries if e.args[0] != k], o.binders, o.factory)
                return r[1]
            if r[0] == 'no':
                if len(args) > 1:
                    return args[1]
                ip.raise_exc('KeyError', (k,), implicit=True)
                return ip.opaque('pop')
        node = ip.freeze(ref)
        fk = ip.freeze(k)
        ip.st.heap[ref.oid] = DictObj((mk('dbase', ip.n('dictpop', node, fk)),), o.binders, o.factory)
        return ip.n('getitem', node, fk) if len(args) == 1 else ip.n('dictget', node, fk, ip.freeze(args[1]))
    if name == 'setdefault':
        k = args[0]
        r = ip.dict_find(o.entries, k if is_const(k) or isinstance(k, Host) else ip.freeze(k))
        if r[0] == 'yes':
            return r[1]
        c = ip.contains_val(k, ref)
        dflt = args[1] if len(args) > 1 else None
        if c is False:
            ip.setitem(ref, k, dflt)
            return dflt
        ip.branch(c, lambda: None, lambda: ip.setitem(ref, k, dflt))
        return ip.n('getitem', ip.freeze(ref), ip.freeze(k))
    if name == 'clear':
        ip.note_mutation(ref, 'clear')
        ip.st.heap[ref.oid] = DictObj((), o.binders, o.factory)
        return None
    if name in ('__contains__',):
        return ip.contains_val(args[0], ref)
    if name == '__getitem__':
        return ip.getitem(ref, args[0])
    if not hasattr(dict, name):
        ip.raise_exc('AttributeError', ('dict object has no attribute %s' % name,), implicit=True)
        return ip.opaque('dict method ' + name)
    return ip.n('mcall', ip.freeze(ref), name, tuple(ip.freeze(a) for a in args), ())


INPLACE_ALWAYS = {'fill', 'itemset', 'put', 'setflags', 'partition', 'setfield', 'copy_'}
LISTISH = {'append', 'extend', 'insert', 'clear', 'update', 'setdefault', 'appendleft', 'add'}


def holds_instance(n, ip, depth=0):
    """may the node denote an object of an analysed class"""
    if not isinstance(n, Node) or depth > 6:
        return False
    if n.op == 'host':
        return not isinstance(n.args[0], Ref) or isinstance(ip.st.heap.get(n.args[0].oid), InstObj)
    if n.op == 'carry':
        return n in ip.inst_carries
    if n.op == 'ite':
        return any(holds_instance(x, ip, depth + 1) for x in n.args[1:])
    if n.op == 'loopout':
        c = n.args[0].carries.get(n.args[1])
        return c is not None and any(holds_instance(x, ip, depth + 1) for x in c[1:])
    return False


def call_node(ip, f, args, kwargs):
    if f.op == 'attr':
        obj, name = f.args
        if holds_instance(obj, ip):
            return ip.opaque('method %s of one of several objects' % name)
        a, k = fz(ip, args, kwargs)
        if name in LISTISH and isinstance(obj, Node) and not (name == 'add' and len(args) and isinstance(args[0], Node) and ip.surely_array(obj)) and not kwargs:
            new = ip.n('listmeth', obj, name, a)
            ip.event('inplace', (obj, name))
            ip.replace_everywhere(obj, new)
            return None
        if name == 'pop' and isinstance(obj, Node):
            ip.event('inplace', (obj, name))
            if obj.op == 'dict' or (args and isinstance(args[0], str)):
                ip.replace_everywhere(obj, ip.n('dictpop', obj, a[0]))
                return ip.n('getitem', obj, a[0]) if len(a) == 1 else ip.n('dictget', obj, a[0], a[1])
            ip.replace_everywhere(obj, ip.n('listmeth', obj, 'pop', a if a else (-1,)))
            return ip.n('getitem', obj, a[0] if a else -1)
        n = mk('mcall', obj, name, a, k, loc=ip.loc())
        ip.ext_calls.setdefault('.' + name, set()).add(str(ip.loc()))
        if (name.endswith('_') and not name.endswith('__') and name != 'requires_grad_') or name in INPLACE_ALWAYS:
            ip.event('inplace', (obj, name))
            ip.replace_everywhere(obj, n)
            return n
        if name == 'requires_grad_' and not (args and args[0] is False):
            ip.event('register_other', ('tensor that requires gradients',))
        if name == 'sort' and isinstance(obj, Node):
            ip.event('inplace', (obj, name))
            ip.replace_everywhere(obj, n)
            return None
        return n
    a, k = fz(ip, args, kwargs)
    return mk('callv', f, a, k, loc=ip.loc())


def call_bound(ip, bb, args, kwargs):
    obj, name = bb.obj, bb.name
    if name.startswith('@'):
        return call_extbase(ip, obj, name[1:], args, kwargs)
    if isinstance(obj, Ref):
        o = ip.obj(obj)
        if isinstance(o, ListObj):
            return list_method(ip, obj, name, args, kwargs)
        if isinstance(o, DictObj):
            return dict_method(ip, obj, name, args, kwargs)
        return ip.opaque('method %s of instance' % name)
    if isinstance(obj, ExcVal):
        return None
    if isinstance(obj, FuncVal):
        if name == 'cache_clear':
            return None
        if name in ('__call__',):
            return ip.call(obj, args, kwargs)
        return ip.opaque('function method ' + name)
    if isinstance(obj, str) or is_const(obj):
        items = [ip.concrete_items(a) if isinstance(a, Ref) else None for a in args]
        if isinstance(obj, str) and name == 'join' and items and items[0] is not None:
            if all(isinstance(x, str) for x in items[0]):
                return obj.join(items[0])
        if all(is_const(a) for a in args) and all(is_const(v) for v in kwargs.values()) and hasattr(obj, name):
            try:
                r = getattr(obj, name)(*args, **kwargs)
            except Exception as e:
                ip.raise_exc(type(e).__name__, (str(e),), implicit=True)
                return ip.opaque('constant method')
            if isinstance(r, list):
                return ip.new_list(r)
            return r
        if not hasattr(obj, name):
            ip.raise_exc('AttributeError', ('%s object has no attribute %s' % (type(obj).__name__, name),), implicit=True)
            return ip.opaque('constant attribute ' + name)
        a, k = fz(ip, args, kwargs)
        return mk('mcall', obj, name, a, k, loc=ip.loc())
    if isinstance(obj, tuple):
        if name in ('index', 'count') and all(is_const(x) for x in obj) and is_const(args[0]):
            return getattr(obj, name)(args[0])
        a, k = fz(ip, args, kwargs)
        return mk('mcall', ip.freeze(obj), name, a, k, loc=ip.loc())
    if isinstance(obj, RangeVal):
        return ip.opaque('range method')
    return ip.opaque('bound %s of %s' % (name, type(obj).__name__))


def param_names(ip, cls):
    """BaseEstimator._get_param_names"""
    f = ip.lookup_class(cls, '__init__')
    if not isinstance(f, FuncVal):
        return []
    a = f.node.args
    return sorted([x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs])


def call_extbase(ip, obj, dotted, args, kwargs):
    short = dotted.split('.')[-1]
    if dotted.startswith('sklearn.base.'):
        cls = obj if isinstance(obj, ClassVal) else ip.obj(obj).cls if isinstance(obj, Ref) and isinstance(ip.obj(obj), InstObj) else None
        if isinstance(cls, ClassVal):
            if short == '_get_param_names':
                return ip.new_list(param_names(ip, cls))
            if short == 'get_params' and obj is not cls:
                return ip.new_dict([(k, ip.getattr(obj, k)) for k in param_names(ip, cls)])
            if short == 'set_params' and obj is not cls:
                for k, v in kwargs.items():
                    ip.setattr(obj, k, v)
                return obj
            if short == 'fit_transform' and obj is not cls:
                f = ip.call(ip.getattr(obj, 'fit'), [a for a in args[:2]] + [v for k, v in kwargs.items() if k == 'y'], {k: v for k, v in kwargs.items() if k != 'y' and k != 'X'})
                return ip.call(ip.getattr(f, 'transform'), [args[0]], {})
    if isinstance(obj, ClassVal) and short == 'from_config' and args:
        kw = {}
        for en in ip.entries_of(args[0]):
            if en.op != 'dset' or not isinstance(en.args[0], str):
                return ip.opaque('configuration with unknown keys')
            kw[en.args[0]] = en.args[1]
        return ip.call(obj, [], kw)
    if isinstance(obj, ClassVal):
        if dotted == 'torch.autograd.Function.apply':
            ctx = ip.n('ctxobj', obj.qualname, str(ip.loc()))
            f = ip.lookup_class(obj, 'forward')
            from .hosts import StaticM
            if isinstance(f, StaticM):
                f = f.f
            ip.event('autograd', (obj.qualname,))
            ip.last_function = obj
            return ip.call(f, [ctx] + list(args), kwargs)
        if short == 'apply' and args:
            pass
        a, k = fz(ip, args, kwargs)
        return mk('call', dotted, a, k, loc=ip.loc())
    if not (isinstance(obj, Ref) and isinstance(ip.obj(obj), InstObj)):
        return lib(ip, dotted, args, kwargs)
    if short in ('register_buffer', 'register_parameter', 'add_module', 'register_module'):
        nm = args[0] if args else kwargs.get('name')
        v = args[1] if len(args) > 1 else kwargs.get('tensor')
        pers = args[2] if len(args) > 2 else kwargs.get('persistent', True)
        if short != 'register_buffer':
            ip.event('register_other', ({'register_parameter': 'parameter'}.get(short, 'submodule'),))
        elif pers is False:
            ip.event('register_other', ('non-persistent buffer',))
        else:
            ip.event('register_buffer', (nm if isinstance(nm, (str, Node)) else ip.freeze(nm), v, pers if isinstance(pers, (bool, Node)) else ip.freeze(pers)))
        o = ip.obj(obj)
        k = nm if is_const(nm) else ip.freeze(nm)
        ip.st.heap[obj.oid] = InstObj(o.cls, o.attrs, o.dyn + (mk('dset', k, v),), o.binders)
        return None
    if short in ('named_buffers', 'named_parameters'):
        o = ip.obj(obj)
        return ip.new_list_segs(ip.dict_segs(o.dyn, 'i'), 'gen')
    if short in ('buffers', 'parameters'):
        o = ip.obj(obj)
        return ip.new_list_segs(ip.dict_segs(o.dyn, 'v'), 'gen')
    if short == '__init__':
        ip.event('extinit', (dotted, tuple(ip.freeze(a) for a in args), tuple(sorted(kwargs))))
        if dotted.startswith('tensorflow') and 'name' in kwargs:
            ip.setattr(obj, '_name', kwargs['name'])
        return None
    if short == 'build':
        return None
    if short in ('_buffers',):
        o = ip.obj(obj)
        return ip.new_oid(DictObj(o.dyn, ip.binders))
    a, k = fz(ip, args, kwargs)
    return mk('call', dotted, (mk('host', obj),) + a, k, loc=ip.loc())
