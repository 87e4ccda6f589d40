"""Dictionary of numeric constants of the analysed sources: model families grow by models around constants that the ordinary
families do not straddle, so that a branch guarded by such a constant is taken both ways."""
import ast
import functools
import os

# constants of comparisons and remainders that the ordinary families straddle
GUARDS = {0, 1, 2, 3, -1, -2, .5, .35}
# other constants: counts, factors and tolerances
VALUES = {0, 1, 2, 3, 4, 5, 8, .5, .1, .35, .75, .8, 1.5, 1e-7, 1e-3, 3.1415, 2 * 3.1415}
# bounds of slices and arguments of min, max and the like
CLAMPS = {'min', 'max', 'minimum', 'maximum', 'clip', 'clamp', 'range', 'islice'}
CAPS = {0, 1, 2, 3, 5, -1, -2, -3, .5, .35}


def fold(n):
    """value of a constant expression, or None"""
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = fold(n.operand)
        return None if v is None else -v
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left), fold(n.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(n.op, ast.Pow) and abs(b) <= 64:
                return a ** b
            if isinstance(n.op, ast.LShift) and 0 <= b <= 64:
                return a << b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Div):
                return a / b
        except Exception:
            return None
    return None


def consts(n, out):
    v = fold(n)
    if v is not None:
        out.add(v)
        return
    for c in ast.iter_child_nodes(n):
        consts(c, out)


def scan(tree):
    guards, values, caps = set(), set(), set()
    consts(tree, values)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            consts(n, guards)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)):
            consts(n, guards)
        elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in CLAMPS:
            caps |= {fold(a) for a in n.args} - {None}
        elif isinstance(n, ast.Slice):
            caps |= {fold(a) for a in (n.lower, n.upper, n.step) if a is not None} - {None}
    return guards, values, caps


@functools.lru_cache(None)
def dictionary():
    """sorted constants to straddle"""
    if os.environ.get('VERIF_DICT'):
        return tuple(float(v) if '.' in v or 'e' in v else int(v) for v in os.environ['VERIF_DICT'].split(','))
    root = os.path.join(os.environ.get('KYM_REPO', '/repo'), 'kymatio')
    out = set()
    for d, _, files in os.walk(root):
        for f in files:
            if not f.endswith('.py') or f in ('datasets.py', 'toolkit.py', 'version.py') or 'skcuda' in f:
                continue
            try:
                g, v, k = scan(ast.parse(open(os.path.join(d, f)).read()))
            except Exception:
                continue
            out |= {c for c in g if c not in GUARDS and abs(c) not in GUARDS}
            out |= {c for c in v if abs(c) not in VALUES}
            out |= {c for c in k if c not in CAPS}
    return tuple(sorted({abs(c) for c in out if c == c and abs(c) < 1e12}, key=lambda c: (c != int(c), c)))[:8]
