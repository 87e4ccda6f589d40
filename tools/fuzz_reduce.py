"""Development aid: shrink a program on which the analyser and Python disagree (see fuzz_engine.py)."""
import ast
import os
import sys
import random
sys.argv, args = [sys.argv[0], '0', '0'], sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fuzz_engine as F
from multiprocessing import get_context

SEED = int(args[0])


def check(src):
    class H:
        def __init__(self, r):
            pass

        def prog(self):
            return src
    F.G = H
    return F.one(SEED)


def bad(src):
    with get_context('fork').Pool(1) as p:
        r = p.apply(check, (src,))
    return bool(r) and 'DIFF' in r and 'UnboundLocal' not in r and 'NameError' not in r


def variants(tree):
    for node in ast.walk(tree):
        for f in ('body', 'orelse', 'handlers'):
            b = getattr(node, f, None)
            if isinstance(b, list) and isinstance(node, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.Try, ast.ExceptHandler)):
                for i in range(len(b)):
                    yield node, f, i


src = F.G(random.Random(SEED)).prog()
pre = F.PRE
body = src[len(pre):]
assert bad(src)
changed = True
while changed:
    changed = False
    k = 0
    while True:
        tree = ast.parse(body)
        vs = list(variants(tree))
        if k >= len(vs):
            break
        node, f, i = vs[k]
        b = getattr(node, f)
        cands = []
        st = b[i]
        new = b[:i] + b[i + 1:]
        if not new and f == 'body':
            new = [ast.Pass()]
            if isinstance(st, ast.Pass):
                k += 1
                continue
        opts = [new]
        for g in ('body', 'orelse'):
            if isinstance(st, (ast.If, ast.Try)) and getattr(st, g, None):
                opts.append(b[:i] + getattr(st, g) + b[i + 1:])
        done = False
        for o in opts:
            setattr(node, f, o)
            try:
                t = ast.unparse(ast.fix_missing_locations(tree)) + '\n'
                compile(t, 'x', 'exec')
            except (SyntaxError, ValueError, IndexError):
                continue
            if t != body and bad(pre + t):
                body = t
                done = changed = True
                break
        if not done:
            k += 1
print(body)
print(check(pre + body))
