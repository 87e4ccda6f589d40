"""Development aid (no check uses it): random little Python programs, interpreted by the analyser and by Python."""
import random
import sys
import os
import signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import numpy as np
from sa import lemma
from sa.lemma import Term, Arr, extract_term, evaluate
from sa.models import A

PRE = '''
import numpy as np
class K:
    c = 5
    def __init__(self, v):
        self.v = v
        self.w = [v]
    def add(self, d):
        self.v = self.v + d
        self.w.append(d)
        return self.v
    @property
    def p(self):
        return self.v * 2
class K2(K):
    c = 6
    def add(self, d):
        return super().add(d + 1)
def gen(n):
    for i in range(n):
        if i == 3:
            continue
        yield i
    yield 77
'''


class G:
    def __init__(self, r):
        self.r = r
        self.lines = []
        self.nl = 0

    def pick(self, *xs):
        return self.r.choice(xs)

    def expr(self, d=0):
        r = self.r.random()
        if d > 2 or r < .3:
            return self.pick('a', 'b', 'c', str(self.r.randint(-3, 9)), 'x[%d]' % self.r.randint(0, 5), 'n')
        if r < .7:
            return '(%s %s %s)' % (self.expr(d + 1), self.pick('+', '-', '*'), self.expr(d + 1))
        if r < .75:
            return '(%s %% 7)' % self.expr(d + 1)
        if r < .8:
            return '(%s if %s else %s)' % (self.expr(d + 1), self.cond(d + 1), self.expr(d + 1))
        if r < .84:
            return 'len(l)'
        if r < .88:
            return '(l[-1] if l else %s)' % self.expr(d + 1)
        if r < .91:
            return 'sum([%s for q in l if q > %s])' % (self.pick('q', 'q + a', '1'), self.expr(d + 1))
        if r < .94:
            return 'o.%s' % self.pick('v', 'p', 'c', 'add(%s)' % self.expr(d + 1))
        if r < .97:
            return 'd.get(%s, %s)' % (self.pick('0', '1', 'a % 3'), self.expr(d + 1))
        return 'max(%s, %s)' % (self.expr(d + 1), self.expr(d + 1))

    def cond(self, d=0):
        r = self.r.random()
        if r < .7 or d > 2:
            return '%s %s %s' % (self.expr(2), self.pick('<', '>', '==', '<=', '!='), self.expr(2))
        if r < .8:
            return 'not (%s)' % self.cond(d + 1)
        return '(%s) %s (%s)' % (self.cond(d + 1), self.pick('and', 'or'), self.cond(d + 1))

    def block(self, ind, loop, depth):
        for _ in range(self.r.randint(1, 3)):
            self.stmt(ind, loop, depth)

    def emit(self, ind, s):
        self.lines.append('    ' * ind + s)

    def stmt(self, ind, loop, depth):
        r = self.r.random()
        v = self.pick('a', 'b', 'c')
        if depth > 3 or r < .3:
            self.emit(ind, '%s %s %s' % (v, self.pick('=', '+=', '='), '(%s) %% 1009' % self.expr()))
            return
        if r < .36:
            self.emit(ind, 'l.append((%s) %% 1009)' % self.expr())
        elif r < .39:
            self.emit(ind, 'd[%s] = (%s) %% 1009' % (self.pick('0', '1', 'a % 3', '2'), self.expr()))
        elif r < .55:
            self.emit(ind, 'if %s:' % self.cond())
            self.block(ind + 1, loop, depth + 1)
            if self.r.random() < .5:
                if self.r.random() < .3:
                    self.emit(ind, 'elif %s:' % self.cond())
                    self.block(ind + 1, loop, depth + 1)
                self.emit(ind, 'else:')
                self.block(ind + 1, loop, depth + 1)
        elif r < .7 and depth < 3:
            self.nl += 1
            k = self.pick('i', 'j')
            it = self.pick('range(n)', 'range(3)', 'list(l)', 'gen(n)', '[1, 5] + list(range(n))', 'sorted(l)', 'x[:n]', '(2, a, 3)', 'reversed(range(n))')
            if self.r.random() < .25:
                self.emit(ind, 'for %s, z in %s:' % (k, self.pick('enumerate(x[:n])', 'zip(range(n), l)', 'list(d.items())')))
            else:
                self.emit(ind, 'for %s in %s:' % (k, it))
            self.emit(ind + 1, '%s = (%s + %s) %% 1009' % (v, v, k))
            self.block(ind + 1, True, depth + 1)
            if self.r.random() < .2:
                self.emit(ind, 'else:')
                self.block(ind + 1, loop, depth + 1)
        elif r < .76 and depth < 3:
            k = 'w%d' % len(self.lines)
            self.emit(ind, '%s = 0' % k)
            self.emit(ind, 'while %s < %s:' % (k, self.pick('n', '4', 'len(l)', '(a % 5)')))
            self.emit(ind + 1, '%s += 1' % k)
            self.emit(ind + 1, 'if %s > 6:' % k)
            self.emit(ind + 2, 'break')
            self.block(ind + 1, True, depth + 1)
            if self.r.random() < .2:
                self.emit(ind, 'else:')
                self.block(ind + 1, loop, depth + 1)
        elif r < .82 and loop:
            self.emit(ind, self.pick('break', 'continue', 'continue'))
        elif r < .86:
            self.emit(ind, 'return %s' % self.pick('a', '("r", a, b)', 'l', 'c'))
        elif r < .92 and depth < 3:
            self.emit(ind, 'try:')
            self.block(ind + 1, loop, depth + 1)
            if self.r.random() < .7:
                self.emit(ind + 1, 'if %s:' % self.cond())
                self.emit(ind + 2, 'raise %s' % self.pick('ValueError', 'KeyError'))
                self.block(ind + 1, loop, depth + 1)
            self.emit(ind, 'except %s:' % self.pick('ValueError', 'KeyError', '(KeyError, ValueError)', 'Exception'))
            self.block(ind + 1, loop, depth + 1)
        elif r < .95:
            self.emit(ind, 'if %s:' % self.cond())
            self.emit(ind + 1, 'raise %s' % self.pick('ValueError', 'KeyError', 'RuntimeError'))
        elif r < .97:
            self.emit(ind, 'f = lambda t: t + %s' % self.pick('a', 'b', 'o.v'))
            self.emit(ind, '%s = f(%s) %% 1009' % (v, self.pick('1', 'b', 'n')))
        else:
            self.emit(ind, 'o = %s(%s)' % (self.pick('K', 'K2'), self.pick('a', 'b', '3')))

    def prog(self):
        self.lines = ['def main(x, n):', '    a = 1', '    b = n', '    c = x[0]', '    l = [%s]' % self.pick('', '3', '4, 1'), '    d = {0: 4}', '    o = %s(2)' % self.pick('K', 'K2')]
        for _ in range(self.r.randint(2, 5)):
            self.stmt(1, False, 0)
        self.emit(1, 'return a, b, c, l, o.v, o.w, sorted(d.items())')
        return PRE + '\n'.join(self.lines) + '\n'


def plain(v):
    from sa.evalr import is_av, deep
    if is_av(v):
        a = np.asarray(v.a)
        return a.item() if a.ndim == 0 else a.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def one(seed):
    """None or a line of text"""
    src = G(random.Random(seed)).prog()
    p = '/tmp/w/fz_%d.py' % seed
    open(p, 'w').write(src)
    lemma.project().add_virtual('spec.fz%d' % seed, p)
    ns = {}
    exec(compile(src, 'fz', 'exec'), ns)

    def boom(*a):
        raise TimeoutError
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(30)
    try:
        s = extract_term(Term('fz%d.main' % seed, A('x', 'N'), 'np'))
        for n in (0, 1, 2, 5):
            arr = Arr((8,), 'int64', seed)
            xv = arr.make('np').a
            try:
                w = ('value', plain(ns['main'](xv, n)))
            except Exception as e:
                w = ('raise', type(e).__name__)
            try:
                o = evaluate(s, {'x': arr, 'N': n})
            except lemma.Undecided as e:
                return '%d n=%d UND %s' % (seed, n, str(e)[:120])
            g = ('value', plain(lemma.deep(o[1]))) if o[0] == 'value' else (o[0], o[1])
            if g != w:
                return '%d n=%d DIFF %s expected %s' % (seed, n, str(g)[:150], str(w)[:150])
    except TimeoutError:
        return '%d TIMEOUT' % seed
    except Exception as e:
        return '%d CRASH %r' % (seed, e)
    finally:
        signal.alarm(0)
    os.unlink(p)


def main():
    from multiprocessing import get_context
    lo, hi = int(sys.argv[1]), int(sys.argv[2])
    tot = {}
    with get_context('fork').Pool(6, maxtasksperchild=1) as pool:
        for r in pool.imap(one, range(lo, hi), chunksize=1):
            k = r.split(' ')[1 if 'n=' not in r else 2] if r else 'ok'
            tot[k] = tot.get(k, 0) + 1
            if r:
                print(r[:330])
    print(tot)


if __name__ == "__main__":
    main()
