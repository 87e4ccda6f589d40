"""Resolution of names, imports, attributes, argument lists and message templates over the syntax trees of the package."""
import ast
import builtins
import glob
import os
import re
import string
import symtable

REPO = os.environ.get('KYM_REPO', '/repo')
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__path__', '__spec__', '__loader__', '__builtins__', '__class__', '__debug__', '__annotations__', '__qualname__', '__module__',
                                 '__dict__'}
OBJECT = set(dir(object)) | {'__dict__', '__name__', '__module__', '__mro__', '__bases__', '__wrapped__', '__qualname__', '__weakref__', '__annotations__', 'mro', '__subclasses__'}


class Fn:
    def __init__(self, node, module, cls=None):
        self.node, self.module, self.cls = node, module, cls
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.npos_only = len(a.posonlyargs)
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg, self.kwarg = a.vararg is not None, a.kwarg is not None
        self.required = set(self.pos[:len(self.pos) - len(a.defaults)])
        self.required |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        self.deco = [d for d in node.decorator_list]
        names = [d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else getattr(getattr(d, 'func', None), 'id', getattr(getattr(d, 'func', None), 'attr', '?')) for d in self.deco]
        self.kind = 'plain'
        for n in names:
            if n == 'staticmethod':
                self.kind = 'static'
            elif n == 'classmethod':
                self.kind = 'class'
            elif n in ('property', 'cached_property', 'setter', 'getter', 'deleter'):
                self.kind = 'property'
            elif n in ('lru_cache', 'cache', 'contextmanager', 'wraps'):
                pass
            else:
                self.kind = 'unknown'

    def bind(self, call, implicit):
        """message when the argument list of the call cannot bind, or None"""
        if any(isinstance(x, ast.Starred) for x in call.args):
            return None
        if any(k.arg is None for k in call.keywords):
            star = True
        else:
            star = False
        n = len(call.args) + implicit
        name = self.node.name
        if n > len(self.pos) and not self.vararg:
            return '%s takes at most %d positional arguments, %d given' % (name, len(self.pos) - implicit, n - implicit)
        given = set(self.pos[:n])
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg in given and k.arg in self.pos:
                return '%s gets several values for %r' % (name, k.arg)
            if k.arg in self.pos[self.npos_only:] or k.arg in self.kwonly:
                given.add(k.arg)
            elif not self.kwarg:
                return '%s has no parameter %r' % (name, k.arg)
        missing = self.required - given
        if missing and not star:
            return '%s is called without %s' % (name, ', '.join(sorted(missing)))
        return None


class Klass:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.attrs = {}, set()
        self.inner = {}


class Module:
    def __init__(self, name, path, tree, src, is_pkg):
        self.name, self.path, self.tree, self.src, self.is_pkg = name, path, tree, src, is_pkg
        self.defs = {}           # name -> ('fn', Fn) | ('class', Klass) | ('import', module, attr|None) | ('ext', dotted) | ('other',)
        self.open = False        # star import of something external
        self.all = None


def bound_names(node):
    """names a statement list can bind in its own scope"""
    out = set()

    def target(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                out.add(x.id)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Import):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                out.add(a.asname or a.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in (node if isinstance(node, list) else node.body):
        visit(s)
    return out


class Package:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.problems = []
        for root, dirs, files in os.walk(os.path.join(self.repo, 'kymatio')):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(root, f)
                rel = os.path.relpath(p, self.repo)[:-3].split(os.sep)
                pkg = rel[-1] == '__init__'
                name = '.'.join(rel[:-1] if pkg else rel)
                src = open(p, encoding='utf-8').read()
                self.modules[name] = Module(name, os.path.relpath(p, self.repo), ast.parse(src, p), src, pkg)
        for m in self.modules.values():
            self.collect(m)
        self.classes = [k for m in self.modules.values() for k in self.klasses(m)]
        for k in self.classes:
            self.fill(k)
        self._mro = {}

    # -- modules
    def absolute(self, m, node):
        """module a from-import refers to"""
        if not node.level:
            return node.module or ''
        base = m.name.split('.')
        if not m.is_pkg:
            base = base[:-1]
        base = base[:len(base) - (node.level - 1)]
        return '.'.join(base + ([node.module] if node.module else []))

    def collect(self, m):
        for n in ast.walk(m.tree):
            pass
        names = bound_names(m.tree)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                names.update(n.names)
        for x in names:
            m.defs[x] = ('other',)
        self.block(m, m.tree.body, m.defs)
        for s in m.tree.body:
            v = None
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in s.targets):
                v = s.value
            if v is not None and isinstance(v, (ast.List, ast.Tuple)):
                m.all = [(e.value, e) for e in v.elts if isinstance(e, ast.Constant) and isinstance(e.value, str)]

    def block(self, m, body, defs):
        count = {}
        for s in body:
            for x in bound_names([s]):
                count[x] = count.get(x, 0) + 1
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and count[s.name] == 1:
                defs[s.name] = ('fn', Fn(s, m))
            elif isinstance(s, ast.ClassDef) and count[s.name] == 1:
                defs[s.name] = ('class', Klass(s, m))
            elif isinstance(s, ast.ImportFrom):
                tgt = self.absolute(m, s)
                for a in s.names:
                    if a.name == '*':
                        if tgt.split('.')[0] != 'kymatio':
                            m.open = True
                        else:
                            defs.setdefault('*', ('star', []))[1].append(tgt)
                        continue
                    nm = a.asname or a.name
                    if count.get(nm) == 1:
                        defs[nm] = ('import', tgt, a.name) if tgt.split('.')[0] == 'kymatio' else ('ext', tgt + '.' + a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    nm = a.asname or a.name.split('.')[0]
                    if count.get(nm) == 1:
                        full = a.name if a.asname else nm
                        defs[nm] = ('import', full, None) if full.split('.')[0] == 'kymatio' else ('ext', full)

    def exists(self, module, name, seen=()):
        """does `from module import name` succeed: True, False or None (unknown)"""
        m = self.modules.get(module)
        if m is None:
            return None
        if name in m.defs or name in ('__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__dict__'):
            return True
        if module + '.' + name in self.modules:
            return True
        if m.open or '__getattr__' in m.defs:
            return None
        star = m.defs.get('*')
        if star and module not in seen:
            rs = []
            for t in star[1]:
                tm = self.modules.get(t)
                if tm is None:
                    return None
                rs.append(self.exists(t, name, seen + (module,)))
            if any(rs):
                return True
            if None in rs:
                return None
        return False

    def resolve(self, module, name, depth=0):
        """definition a module-level name stands for, following imports"""
        m = self.modules.get(module)
        if m is None or depth > 12:
            return None
        d = m.defs.get(name)
        if d is None:
            if module + '.' + name in self.modules:
                return ('module', module + '.' + name)
            star = m.defs.get('*')
            if star:
                for t in star[1]:
                    r = self.resolve(t, name, depth + 1)
                    if r is not None:
                        return r
            return None
        if d[0] == 'import':
            if d[2] is None:
                return ('module', d[1])
            r = self.resolve(d[1], d[2], depth + 1)
            return r
        return d

    # -- classes
    def klasses(self, m):
        out = []

        def visit(defs):
            for d in defs.values():
                if d[0] == 'class':
                    out.append(d[1])
        visit(m.defs)
        return out

    def fill(self, k):
        k.attrs = bound_names(k.node)
        self_names = set()
        count = {}
        for s in k.node.body:
            for x in bound_names([s]):
                count[x] = count.get(x, 0) + 1
        for s in k.node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(s, k.module, k)
                if f.kind == 'property' or count[s.name] == 1:
                    k.methods[s.name] = f
                a = s.args.posonlyargs + s.args.args
                if a and f.kind != 'static':
                    first = a[0].arg
                    for n in ast.walk(s):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == first:
                            self_names.add(n.attr)
            elif isinstance(s, ast.ClassDef):
                k.inner[s.name] = s
        for n in ast.walk(k.node):
            if isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', None)) in ('setattr', '__setattr__') and len(n.args) > 1 and isinstance(n.args[-2], ast.Constant):
                self_names.add(n.args[-2].value)
        k.stores = self_names
        k.dynamic = bool(k.node.decorator_list or k.node.keywords) or any(
            isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', None)) in ('vars', 'exec', 'eval', '__setattr__', 'register_forward_hook') for n in ast.walk(k.node)) or any(x in k.methods for x in ('__getattr__', '__getattribute__')) or any(
            isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 and not isinstance(n.args[1], ast.Constant)
            for n in ast.walk(k.node)) or any(isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.ctx, ast.Load) and self.updated(k.node, n) for n in ast.walk(k.node))

    @staticmethod
    def updated(tree, attr):
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and n.value is attr and n.attr in ('update', 'setdefault'):
                return True
            if isinstance(n, ast.Subscript) and n.value is attr and isinstance(n.ctx, ast.Store):
                return True
        return False

    def base(self, k, expr):
        if isinstance(expr, ast.Name):
            d = self.resolve(k.module.name, expr.id)
            if d and d[0] == 'class':
                return d[1]
            if expr.id == 'object':
                return None
            return self.dotted(k.module, expr) or '?'
        if isinstance(expr, ast.Attribute):
            d = self.attr_def(k.module, expr)
            if d and d[0] == 'class':
                return d[1]
            return self.dotted(k.module, expr) or '?'
        return '?'

    def dotted(self, m, expr):
        """external dotted name of an expression"""
        parts = []
        while isinstance(expr, ast.Attribute):
            parts.append(expr.attr)
            expr = expr.value
        if not isinstance(expr, ast.Name):
            return None
        d = m.defs.get(expr.id)
        if d and d[0] == 'import' and d[2] is not None:
            d = self.resolve(m.name, expr.id)
        if d and d[0] == 'ext':
            return '.'.join([d[1]] + parts[::-1])
        return None

    def attr_def(self, m, expr):
        """definition of a dotted expression rooted at an internal module"""
        if isinstance(expr, ast.Name):
            return self.resolve(m.name, expr.id)
        if isinstance(expr, ast.Attribute):
            d = self.attr_def(m, expr.value)
            if d and d[0] == 'module':
                return self.resolve(d[1], expr.attr)
        return None

    def mro(self, k):
        """C3 linearisation; external bases are strings"""
        if k in self._mro:
            return self._mro[k]
        bases = [b for b in (self.base(k, e) for e in k.node.bases) if b is not None]
        seqs = [list(self.mro(b)) if isinstance(b, Klass) else [b] for b in bases] + [list(bases)]
        out = [k]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] is c or (s and isinstance(c, str) and s[0] == c):
                    del s[0]
        self._mro[k] = out
        return out

    def roots(self):
        """classes that are instantiated or used as they are: leaves, and classes re-exported or called anywhere"""
        parents = set()
        for k in self.classes:
            for b in self.mro(k)[1:]:
                if isinstance(b, Klass):
                    parents.add(b)
        out = [k for k in self.classes if k not in parents]
        for m in self.modules.values():
            if m.name.count('.') == 1:
                for nm, d in m.defs.items():
                    r = self.resolve(m.name, nm)
                    if r and r[0] == 'class' and r[1] not in out:
                        out.append(r[1])
        return out

    def lookup(self, mro, name, after=None):
        """first class of the linearisation that defines name in its body: (Klass, Fn|None), 'ext' if an external class comes first, None"""
        on = after is None
        for c in mro:
            if not on:
                on = c is after
                continue
            if isinstance(c, str):
                if external_has(c, name) is not False:
                    return 'ext'
                continue
            if name in c.attrs:
                return (c, c.methods.get(name))
        return None


# ---- external classes: their own sources, read as text
_TEXT = {}


def site():
    for p in sorted(glob.glob('/opt/venv/lib/python3*/site-packages')):
        return p
    return None


FILES = {
    'torch.nn.Module': ['torch/nn/modules/module.py'],
    'torch.autograd.Function': ['torch/autograd/function.py'],
    'tensorflow.Module': ['tensorflow/python/module/module.py', 'tensorflow/python/trackable/autotrackable.py', 'tensorflow/python/trackable/base.py'],
    'tensorflow.keras.layers.Layer': ['keras/src/layers/layer.py', 'keras/src/ops/operation.py', 'keras/src/saving/keras_saveable.py', 'keras/src/backend/tensorflow/layer.py', 'keras/src/backend/tensorflow/trackable.py'],
    'sklearn.base.BaseEstimator': ['sklearn/base.py', 'sklearn/utils/_metadata_requests.py', 'sklearn/utils/_estimator_html_repr.py', 'sklearn/utils/_repr_html/base.py'],
    'sklearn.base.TransformerMixin': ['sklearn/base.py', 'sklearn/utils/_set_output.py'],
}
REQUIRED = {'torch.nn.Module': 1, 'torch.autograd.Function': 1, 'tensorflow.Module': 3, 'tensorflow.keras.layers.Layer': 2, 'sklearn.base.BaseEstimator': 1, 'sklearn.base.TransformerMixin': 1}


def words(dotted):
    if dotted in _TEXT:
        return _TEXT[dotted]
    res = None
    root = site()
    if dotted in FILES and root:
        found = [os.path.join(root, f) for f in FILES[dotted] if os.path.exists(os.path.join(root, f))]
        if len(found) >= REQUIRED[dotted]:
            res = set()
            for f in found:
                res |= set(re.findall(r'[A-Za-z_]\w*', open(f, encoding='utf-8', errors='replace').read()))
    _TEXT[dotted] = res
    return res


def external_has(dotted, name):
    w = words(dotted)
    if w is None:
        return None
    return name in w


_NP = {}


def numpy_names(sub):
    """names of a NumPy namespace, from its stub file; None when unknown"""
    if sub in _NP:
        return _NP[sub]
    res = None
    root = site()
    path = os.path.join(root or '', *sub.split('.'))
    stub = os.path.join(path, '__init__.pyi')
    if root and os.path.exists(stub):
        try:
            t = ast.parse(open(stub, encoding='utf-8').read())
            res = bound_names(t)
            for n in ast.walk(t):
                if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                    res = None
                    break
            if res is not None:
                res |= {f[:-3].split('.')[0] for f in os.listdir(path) if f.endswith('.py') or f.endswith('.pyi')} | {d for d in os.listdir(path)}
                src = open(os.path.join(path, '__init__.py'), encoding='utf-8').read()
                res |= set(re.findall(r'^\s+(\w+),$', src, re.M)) if sub == 'numpy' else set()
                res |= bound_names(ast.parse(src))
        except SyntaxError:
            res = None
    _NP[sub] = res
    return res


# ---- rules; each yields (file, function, line, message) and counts sites
class Report:
    def __init__(self):
        self.bad, self.sites, self.fns = [], 0, {}

    def site(self, m, where):
        self.sites += 1
        self.fns.setdefault(m.path, set()).add(where)

    def add(self, m, node, msg):
        self.bad.append(('%s:%d' % (m.path, node.lineno), msg))


def scopes(m):
    """(qualified name, node) of every function of a module"""
    out = []

    def visit(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((q + c.name, c))
                visit(c, q + c.name + '.')
            elif isinstance(c, ast.ClassDef):
                visit(c, q + c.name + '.')
            else:
                visit(c, q)
    visit(m.tree, '')
    return out


def without_annotations(src):
    """the same program, its annotations (never evaluated) removed"""
    t = ast.parse(src)
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            n.returns = None
        elif isinstance(n, ast.arg):
            n.annotation = None
        elif isinstance(n, ast.AnnAssign):
            n.annotation = ast.copy_location(ast.Constant(None), n.annotation)
    return ast.unparse(t)


def rule_names(P):
    """every name that is read is bound in an enclosing scope, in the module or in the language"""
    R = Report()
    for m in P.modules.values():
        if m.open or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'eval', 'globals', 'vars') for n in ast.walk(m.tree)):
            continue
        src = m.src
        if any(isinstance(n, ast.ImportFrom) and n.module == '__future__' and any(a.name == 'annotations' for a in n.names) for n in m.tree.body):
            src = without_annotations(src)
        top = symtable.symtable(src, m.path, 'exec')
        lines = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                lines.setdefault(n.id, []).append(n)
        star = m.defs.get('*')

        def visit(t):
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                R.site(m, t.get_name())
                glob = s.is_global() or (t.get_type() == 'module')
                if t.get_type() == 'class' and not s.is_local() and not s.is_free():
                    glob = True
                if glob:
                    x = s.get_name()
                    ok = x in m.defs or x in BUILTINS or (t.get_type() == 'class' and x.startswith('__'))
                    if not ok and star:
                        ok = P.exists(m.name, x) is not False
                    if not ok:
                        for n in lines.get(x, []):
                            lo = t.get_lineno()
                            if t.get_type() == 'module' or n.lineno >= lo:
                                R.add(m, n, 'name %r is not defined' % x)
                                break
                        else:
                            R.bad.append((m.path, 'name %r is not defined in %s' % (x, t.get_name())))
            for c in t.get_children():
                visit(c)
        visit(top)
    return R


def rule_imports(P):
    """imports from the package and the names it exports exist"""
    R = Report()
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                tgt = P.absolute(m, n)
                if tgt.split('.')[0] != 'kymatio':
                    continue
                R.site(m, 'import ' + tgt)
                if tgt not in P.modules:
                    R.add(m, n, 'there is no module %s' % tgt)
                    continue
                for a in n.names:
                    if a.name != '*' and P.exists(tgt, a.name) is False:
                        R.add(m, n, '%s does not define %s' % (tgt, a.name))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] == 'kymatio':
                        R.site(m, 'import ' + a.name)
                        if a.name not in P.modules:
                            R.add(m, n, 'there is no module %s' % a.name)
        for (x, n) in m.all or []:
            R.site(m, '__all__')
            if P.exists(m.name, x) is False:
                R.add(m, n, '__all__ lists %s, which the module does not define' % x)
    return R


def locals_of(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)
    return out | bound_names(fn)


def shadowing(m):
    """expression nodes -> set of names bound in enclosing functions (so not module level)"""
    out = {}

    def visit(n, names):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                visit(d, names)
            inner = names | locals_of(n)
            for c in ast.iter_child_nodes(n):
                if c not in n.decorator_list:
                    visit(c, inner)
            return
        if isinstance(n, ast.Lambda):
            inner = names | {x.arg for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
            for c in ast.iter_child_nodes(n):
                visit(c, inner)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            inner = names | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for c in ast.iter_child_nodes(n):
                visit(c, inner)
            return
        out[id(n)] = names
        for c in ast.iter_child_nodes(n):
            visit(c, names)
    visit(m.tree, frozenset())
    return out


def rule_modattrs(P):
    """attributes of the package's own modules and classes, and of NumPy namespaces, exist"""
    R = Report()
    for m in P.modules.values():
        hide = shadowing(m)
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                continue
            root = n
            while isinstance(root, ast.Attribute):
                root = root.value
            if not isinstance(root, ast.Name) or root.id in hide.get(id(n), ()):
                continue
            d = P.attr_def(m, n.value)
            if d and d[0] == 'module' and d[1] in P.modules:
                R.site(m, 'module attribute')
                if P.exists(d[1], n.attr) is False:
                    R.add(m, n, 'module %s has no attribute %s' % (d[1], n.attr))
            elif d and d[0] == 'class':
                mro = P.mro(d[1])
                R.site(m, 'class attribute')
                if any(isinstance(c, str) for c in mro) or n.attr in OBJECT or any(getattr(c, 'dynamic', False) for c in mro):
                    known = all(external_has(c, n.attr) is False for c in mro if isinstance(c, str)) and n.attr not in OBJECT and not any(getattr(c, 'dynamic', False) for c in mro)
                    if not known:
                        continue
                if not any(n.attr in c.attrs for c in mro if not isinstance(c, str)):
                    # assigned from outside somewhere?
                    if not assigned(P, n.attr):
                        R.add(m, n, 'class %s has no attribute %s' % (d[1].name, n.attr))
            else:
                full = P.dotted(m, n.value)
                if full and (full == 'numpy' or full in ('numpy.fft', 'numpy.linalg', 'numpy.random')):
                    names = numpy_names(full)
                    if names is not None:
                        R.site(m, full)
                        if n.attr not in names and not n.attr.startswith('__'):
                            R.add(m, n, '%s has no attribute %s' % (full, n.attr))
    return R


_ASSIGNED = {}


def assigned(P, attr):
    """is the attribute stored on anything, anywhere in the package"""
    if id(P) not in _ASSIGNED:
        s = set()
        for m in P.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    s.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                    s.add(n.args[1].value)
        _ASSIGNED[id(P)] = s
    return attr in _ASSIGNED[id(P)]


def guarded(fn):
    """attributes the function asks for with hasattr or catches AttributeError around"""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr', 'setattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
        if isinstance(n, ast.Try):
            for h in n.handlers:
                names = [x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)] if h.type else ['Exception']
                if {'AttributeError', 'Exception', 'BaseException'} & set(names):
                    for b in n.body:
                        for x in ast.walk(b):
                            if isinstance(x, ast.Attribute):
                                out.add(x.attr)
    return out


def active(P, k, f, mro):
    """is method f of class k the one instances with this linearisation run, or reachable through an explicit or super call"""
    r = P.lookup(mro, f.node.name)
    if r == 'ext' or r is None:
        return True
    return True if r[0] is k else None


def chains(P, mro):
    """methods an instance can run: {(class, method)}: the resolved ones, and those named explicitly or through super from them"""
    seen, todo = set(), []
    names = {x for c in mro if not isinstance(c, str) for x in c.methods}
    for x in names:
        r = P.lookup(mro, x)
        if r == 'ext':
            # an external class comes first and may or may not define it
            for c in mro:
                if not isinstance(c, str) and x in c.methods:
                    todo.append((c, x))
                    break
        elif r and r[1]:
            todo.append((r[0], x))
    while todo:
        c, x = todo.pop()
        if (c, x) in seen:
            continue
        seen.add((c, x))
        for n in ast.walk(c.methods[x].node):
            if not isinstance(n, ast.Attribute):
                continue
            d = P.attr_def(c.module, n.value) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
            if d and d[0] == 'class' and d[1] in mro:
                r = P.lookup(mro[mro.index(d[1]):], n.attr)
                if r and r != 'ext' and r[1]:
                    todo.append((r[0], n.attr))
            at = super_from(P, c, n.value) if is_super(n.value) else None
            if at is not None and at in mro:
                r = P.lookup(mro, n.attr, after=at)
                if r and r != 'ext' and r[1]:
                    todo.append((r[0], n.attr))
                elif r == 'ext':
                    on = False
                    for b in mro:
                        if on and not isinstance(b, str) and n.attr in b.methods:
                            todo.append((b, n.attr))
                            break
                        on = on or b is at
    return seen


def is_super(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'super'


def super_from(P, c, e):
    """class after which super() looks; None when it is not known"""
    if not e.args:
        return c
    d = P.attr_def(c.module, e.args[0]) if isinstance(e.args[0], (ast.Name, ast.Attribute)) else None
    return d[1] if d and d[0] == 'class' else None


def conditional(fn):
    """nodes evaluated only when some condition of the function holds"""
    out = set()
    for n in ast.walk(fn):
        parts = []
        if isinstance(n, (ast.If, ast.While)):
            parts = n.body + n.orelse
        elif isinstance(n, ast.IfExp):
            parts = [n.body, n.orelse]
        elif isinstance(n, ast.BoolOp):
            parts = n.values[1:]
        elif isinstance(n, ast.Match):
            parts = n.cases
        for x in parts:
            out.update(id(y) for y in ast.walk(x))
    # statements after a conditional exit
    def body(stmts):
        cut = False
        for s in stmts:
            if cut:
                out.update(id(y) for y in ast.walk(s))
            if isinstance(s, ast.If) and any(isinstance(y, (ast.Return, ast.Raise, ast.Continue, ast.Break)) for y in ast.walk(s)):
                cut = True
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, f, None), list):
                    body(getattr(s, f))
    body(fn.body)
    return out


def first_arg(f):
    if f.kind == 'static':
        return None
    a = f.node.args.posonlyargs + f.node.args.args
    return a[0].arg if a else None


def rule_self(P):
    """attributes and methods an object reads from itself exist on every class that runs the method, and its calls of its own methods bind"""
    R = Report()
    missing, present = {}, set()
    for root in P.roots():
        mro = P.mro(root)
        inner = [c for c in mro if not isinstance(c, str)]
        if any(c.dynamic for c in inner):
            continue
        have = set(OBJECT)
        for c in inner:
            have |= c.attrs | c.stores
        exts = [c for c in mro if isinstance(c, str)]
        for (c, x) in sorted(chains(P, mro), key=lambda t: (t[0].name, t[1])):
            f = c.methods[x]
            me = first_arg(f)
            if me is None:
                continue
            ask = guarded(f.node)
            rebound = any(isinstance(n, ast.Name) and n.id == me and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node))
            if rebound:
                continue
            parents = {id(ch): n for n in ast.walk(f.node) for ch in ast.iter_child_nodes(n)}
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Attribute) or isinstance(n.ctx, ast.Store):
                    continue
                call = parents.get(id(n))
                call = call if isinstance(call, ast.Call) and call.func is n else None
                if isinstance(n.value, ast.Name) and n.value.id == me:
                    R.site(c.module, '%s.%s' % (c.name, x))
                    if n.attr in have:
                        present.add(id(n))
                        r = P.lookup(mro, n.attr)
                        stored = any(n.attr in b.stores for b in inner)
                        if call is not None and r and r != 'ext' and r[1] is not None and not stored and r[1].kind in ('plain', 'static', 'class'):
                            if f.kind == 'class' and r[1].kind == 'plain':
                                continue
                            msg = r[1].bind(call, 0 if r[1].kind == 'static' else 1)
                            if msg:
                                R.add(c.module, n, '%s: %s' % (root.name, msg))
                        continue
                    if n.attr in ask:
                        continue
                    if any(external_has(e, n.attr) is not False for e in exts):
                        continue
                    if assigned_outside(P, n.attr):
                        continue
                    missing.setdefault(id(n), []).append((c.module, n, root.name, id(n) in conditional(f.node)))
                elif is_super(n.value):
                    at = super_from(P, c, n.value)
                    if at is None or at not in mro:
                        continue
                    R.site(c.module, '%s.%s' % (c.name, x))
                    r = P.lookup(mro, n.attr, after=at)
                    if r is None and n.attr not in OBJECT:
                        R.add(c.module, n, 'no class after %s in the order of %s defines %s' % (c.name, root.name, n.attr))
                    elif r and r != 'ext' and r[1] is not None and call is not None and r[1].kind in ('plain', 'static', 'class'):
                        msg = r[1].bind(call, 0 if r[1].kind == 'static' else 1)
                        if msg:
                            R.add(c.module, n, '%s: %s' % (root.name, msg))
    for i, rows in missing.items():
        for (m, n, name, cond) in rows:
            # a condition may tell the classes that have it from those that do not
            if not (cond and i in present):
                R.add(m, n, 'objects of class %s have no attribute %s' % (name, n.attr))
    return R


def assigned_outside(P, attr):
    """stored on something other than the first argument of a method"""
    key = ('out', id(P))
    if key not in _ASSIGNED:
        s = set()
        for m in P.modules.values():
            for q, fn in scopes(m):
                pass
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls', 'ctx')):
                    s.add(n.attr)
        _ASSIGNED[key] = s
    return attr in _ASSIGNED[key]


def rule_calls(P):
    """calls of the package's own functions and classes pass an argument list that binds"""
    R = Report()
    for m in P.modules.values():
        hide = shadowing(m)
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            root = n.func
            while isinstance(root, ast.Attribute):
                root = root.value
            if not isinstance(root, ast.Name) or root.id in hide.get(id(n), ()):
                continue
            d = P.attr_def(m, n.func)
            if d and d[0] == 'fn':
                R.site(m, d[1].node.name)
                if d[1].kind == 'plain':
                    msg = d[1].bind(n, 0)
                    if msg:
                        R.add(m, n, msg)
            elif d and d[0] == 'class':
                mro = P.mro(d[1])
                if d[1].node.keywords or d[1].node.decorator_list:
                    continue
                r = P.lookup(mro, '__init__')
                if P.lookup(mro, '__new__') is not None:
                    continue
                R.site(m, d[1].name)
                if r and r != 'ext' and r[1] is not None:
                    msg = r[1].bind(n, 1)
                    if msg:
                        R.add(m, n, '%s: %s' % (d[1].name, msg))
                elif r is None and (n.args or n.keywords):
                    R.add(m, n, '%s takes no arguments' % d[1].name)
            elif isinstance(n.func, ast.Attribute):
                d = P.attr_def(m, n.func.value)
                if d and d[0] == 'class':
                    r = P.lookup(P.mro(d[1]), n.func.attr)
                    if r and r != 'ext' and r[1] is not None and r[1].kind in ('plain', 'static', 'class'):
                        R.site(m, d[1].name + '.' + n.func.attr)
                        msg = r[1].bind(n, 1 if r[1].kind == 'class' else 0)
                        if msg:
                            R.add(m, n, '%s.%s' % (d[1].name, msg))
    return R


def backends(P, dim):
    out = []
    for k in P.classes:
        if k.module.name.startswith('kymatio.scattering%s.backend.' % dim) and any(isinstance(c, Klass) and c.module.name.startswith('kymatio.backend.') for c in P.mro(k)):
            out.append(k)
    return out


def rule_backends(P):
    """operations the core and the frontends ask of a backend exist on every backend of the transform, and their argument lists bind"""
    R = Report()
    for m in P.modules.values():
        parts = m.name.split('.')
        if len(parts) < 3 or not parts[1].startswith('scattering') or parts[2] not in ('core', 'frontend'):
            continue
        dim = parts[1][len('scattering'):]
        bs = backends(P, dim)
        for q, fn in scopes(m):
            params = {x.arg for x in fn.args.args}
            dry = any(isinstance(x, ast.Attribute) and x.attr == '_DryBackend' for x in ast.walk(fn))
            if dry:
                continue
            local = {t.id for s in ast.walk(fn) if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name) and isinstance(s.value, ast.Attribute) and s.value.attr == 'backend'}
            parents = {id(ch): n for n in ast.walk(fn) for ch in ast.iter_child_nodes(n)}
            ask = guarded(fn)
            for n in ast.walk(fn):
                if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                    continue
                v = n.value
                on = (isinstance(v, ast.Name) and v.id == 'backend' and 'backend' in params) or (isinstance(v, ast.Name) and v.id in local) or (
                    isinstance(v, ast.Attribute) and v.attr == 'backend' and isinstance(v.value, ast.Name) and v.value.id == 'self')
                if not on or n.attr in ask or q.endswith('_instantiate_backend') or q.endswith('__init__'):
                    continue
                use = bs
                if parts[2] == 'frontend':
                    # a concrete frontend has its own backends; the base has all of them
                    own = parts[3].replace('_frontend', '')
                    if own in ('numpy', 'torch', 'tensorflow', 'jax'):
                        use = [b for b in bs if b.module.name.split('.')[-1] == own + '_backend' or (own == 'torch' and 'skcuda' in b.module.name)]
                call = parents.get(id(n))
                call = call if isinstance(call, ast.Call) and call.func is n else None
                for b in use:
                    mro = P.mro(b)
                    R.site(m, q)
                    r = P.lookup(mro, n.attr)
                    if r is None:
                        if n.attr not in OBJECT and not any(n.attr in c.stores for c in mro if not isinstance(c, str)):
                            R.add(m, n, 'backend %s has no operation %s' % (b.name, n.attr))
                    elif r != 'ext' and r[1] is not None and call is not None and r[1].kind in ('static', 'class'):
                        msg = r[1].bind(call, 1 if r[1].kind == 'class' else 0)
                        if msg:
                            R.add(m, n, '%s: %s' % (b.name, msg))
    return R


# ---- locals that no path has assigned yet
class Flow:
    def __init__(self, R, m, fn, names):
        self.R, self.m, self.fn, self.names = R, m, fn, names
        self.brk = []
        self.quiet = 0

    def load(self, e, st, extra=frozenset()):
        if e is None or st is None:
            return st
        for n in self.exprs(e, extra):
            name, bound = n
            if name.id in self.names and name.id not in bound and name.id not in st and not self.quiet:
                self.R.add(self.m, name, 'local %r is read before anything can have assigned it' % name.id)
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                st = st | {n.target.id}
        return st

    def exprs(self, e, bound):
        if isinstance(e, (ast.Lambda, ast.GeneratorExp, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if isinstance(e, ast.GeneratorExp):
                yield from self.exprs(e.generators[0].iter, bound)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)):
            yield from self.exprs(e.generators[0].iter, bound)
            return
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(e)):
            return
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
            yield e, bound
        for c in ast.iter_child_nodes(e):
            yield from self.exprs(c, bound)

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def store(self, t, st):
        if st is None:
            return None
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st = st | {n.id}
        for n in ast.walk(t):
            if isinstance(n, (ast.Subscript, ast.Attribute)):
                self.load(n.value, st)
                if isinstance(n, ast.Subscript):
                    self.load(n.slice, st)
        return st

    def block(self, body, st):
        for s in body:
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if st is None:
            return None
        if isinstance(s, ast.Assign):
            st = self.load(s.value, st)
            for t in s.targets:
                st = self.store(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in self.names and s.target.id not in st and not self.quiet:
                self.R.add(self.m, s, 'local %r is updated before anything can have assigned it' % s.target.id)
            st = self.load(s.value, st)
            return self.store(s.target, st)
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                st = self.load(s.value, st)
                st = self.store(s.target, st)
            return st
        if isinstance(s, ast.Return):
            self.load(s.value, st)
            return None
        if isinstance(s, ast.Raise):
            self.load(s.exc, st)
            self.load(s.cause, st)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.brk:
                self.brk[-1] = self.join(self.brk[-1], st)
            return None
        if isinstance(s, ast.If):
            st = self.load(s.test, st)
            return self.join(self.block(s.body, st), self.block(s.orelse, st))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            infinite = False
            if isinstance(s, ast.While):
                st = self.load(s.test, st)
                infinite = isinstance(s.test, ast.Constant) and bool(s.test.value)
            else:
                st = self.load(s.iter, st)
            start = st
            # names any earlier iteration may have assigned
            feed = start | (bound_names(s.body) & self.names)
            if not isinstance(s, ast.While):
                feed = self.store(s.target, feed)
            self.brk.append(None)
            out = self.block(s.body, feed)
            b = self.brk.pop()
            after = self.join(self.join(start if not infinite else None, out if not infinite else None), b)
            if after is not None and not isinstance(s, ast.While):
                after = self.store(s.target, after)
            if s.orelse:
                after = self.join(after, self.block(s.orelse, after))
            return after
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.load(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.store(i.optional_vars, st)
            out = self.block(s.body, st)
            # a context manager may swallow an exception
            return self.join(out, st | (bound_names(s.body) & self.names))
        if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            mid = st | (bound_names(s.body) & self.names)
            out = self.block(s.body, st)
            if s.orelse:
                out = self.block(s.orelse, out)
            for h in s.handlers:
                hs = mid
                if h.type is not None:
                    hs = self.load(h.type, hs)
                if h.name:
                    hs = hs | {h.name}
                out = self.join(out, self.block(h.body, hs))
            if s.finalbody:
                fin = self.join(out, mid)
                for h in s.handlers:
                    fin = fin | (bound_names(h.body) & self.names)
                end = self.block(s.finalbody, fin)
                out = None if out is None or end is None else end
            return out
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                st = self.load(d, st)
            return st | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return st | bound_names([s])
        if isinstance(s, ast.Delete):
            return st
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return st
        if isinstance(s, ast.Expr):
            return self.load(s.value, st)
        if isinstance(s, ast.Assert):
            st = self.load(s.test, st)
            self.load(s.msg, st)
            return st
        if isinstance(s, ast.Match):
            st = self.load(s.subject, st)
            out = st
            for c in s.cases:
                out = self.join(out, self.block(c.body, st | bound_names([c.pattern]) if not isinstance(c.pattern, list) else st))
            return out
        return st | (bound_names([s]) & self.names)


def rule_locals(P):
    """no local variable is read where no path can have assigned it"""
    R = Report()
    for m in P.modules.values():
        for q, fn in scopes(m):
            R.site(m, q)
            declared = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
            a = fn.args
            params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
            names = bound_names(fn) - declared - params
            Flow(R, m, fn, names).block(fn.body, frozenset())
    return R


# ---- message templates
def rule_messages(P):
    """literal templates get the values they ask for"""
    R = Report()
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                spec = re.findall(r'%(\(\w+\))?[-#0 +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])', n.left.value)
                want = sum(1 for s in spec if s[4] != '%') + sum((s[1] == '*') + (s[3] == '*') for s in spec)
                if any(s[0] for s in spec):
                    continue
                R.site(m, 'template')
                if isinstance(n.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.right.elts):
                    if len(n.right.elts) != want:
                        R.add(m, n, 'the message asks for %d values and gets %d' % (want, len(n.right.elts)))
                elif isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.BinOp)) and want != 1:
                    if not isinstance(n.right, ast.BinOp):
                        R.add(m, n, 'the message asks for %d values and gets one' % want)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
                if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                R.site(m, 'template')
                try:
                    fields = [f for (_, f, _, _) in string.Formatter().parse(n.func.value.value) if f is not None]
                except ValueError as e:
                    R.add(m, n, 'malformed message template: %s' % e)
                    continue
                auto = 0
                names = {k.arg for k in n.keywords}
                for f in fields:
                    head = re.split(r'[.\[]', f, maxsplit=1)[0]
                    if head == '':
                        head, auto = str(auto), auto + 1
                    if head.isdigit():
                        if int(head) >= len(n.args):
                            R.add(m, n, 'the message asks for value %s and gets %d' % (head, len(n.args)))
                            break
                    elif head not in names:
                        R.add(m, n, 'the message asks for %r, which is not passed' % head)
                        break
    return R


RULES = [('names', rule_names), ('imports', rule_imports), ('modules', rule_modattrs), ('objects', rule_self), ('calls', rule_calls), ('backends', rule_backends),
         ('locals', rule_locals), ('messages', rule_messages)]


def run():
    P = Package()
    out = []
    for name, fn in RULES:
        R = fn(P)
        r = dict(id='C25/' + name, status='violated' if R.bad else 'held', anchor='kymatio', note=fn.__doc__, sites=R.sites, files={f: sorted(v) for f, v in R.fns.items()})
        if R.bad:
            bad = sorted(set(R.bad))
            r['viol'] = dict(msg='; '.join('%s: %s' % b for b in bad[:8]), where=[b[0] for b in bad[:8]], model=None)
        out.append(r)
    return out
