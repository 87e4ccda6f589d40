"""C11: the cache directory is resolved by precedence and created safely."""
import posixpath

from ..evalr import Undecided
from ..extract import atom
from ..lemma import Ob, Term, Obj
from ..osmodel import OsSpec, Sys, up

EXPLANATION = ('the two public functions of kymatio/caching.py, for every way of passing their arguments: the ordered sequence of guarded operating-system operations they perform is run over an '
               'abstract file system (set of existing directories), environment (variable unset, set, changed between calls or after import) and interference by another process that '
               'creates the directory or its parents before any operation; path returned, final directories, error raised and absence of any other modification are compared with the '
               'documented precedence')
TECHNIQUE = 'typestate analysis of the guarded sequence of file-system operations over a finite abstract file system with interference'
NOTE = 'Another process only ever creates directories. Paths are compared after normalisation; permissions are modelled only as the owner bits of an explicit mode.'
FLOOR = 1
VAR = 'KYMATIO_CACHE'
M = 'kymatio.caching'


def base_of(m, k=0):
    s = m['$os'].runs[k]
    if m.get('base') is not None:
        return m['base']
    if VAR in s.env:
        return s.env[VAR]
    return posixpath.join(s.home, 'kymatio_cache')


def norm(p):
    return posixpath.normpath(p) if isinstance(p, str) else p


def find(m):
    return ('value', base_of(m))


def findtwice(m):
    m = dict(m, base=None)
    return ('value', (base_of(m), base_of(m, 1)))


def closure(ds):
    out = set()
    for d in ds:
        out |= set(up(d))
    return out


def target(m, k=0):
    return posixpath.join(base_of(m, k), m.get('name') or '')


def get(m):
    p = target(m)
    if m.get('create', True):
        return ('value', p)
    had = closure(m['$os'].runs[0].dirs)
    if norm(p) in had:
        return ('value', p)
    if any(norm(p) in closure(v) for v in m['$os'].other.values()):
        return ('either', p)
    return ('raise', 'ValueError', None, None)


def twice(m):
    return ('value', (target(m), target(m, 1)))


def cmp(a, b, m):
    if b[0] == 'either':
        if a[0] == 'raise':
            return None if a[1] == 'ValueError' else 'raises %s' % a[1]
        b = ('value', b[1])
    if b[0] == 'raise':
        if a[0] != 'raise':
            return 'returns %r although the directory is missing and may not be created' % (a[1],)
        return None if a[1] == b[1] else 'raises %s instead of %s' % (a[1], b[1])
    if a[0] == 'raise':
        return 'raises %s at %s instead of returning %r' % (a[1], a[2], b[1])
    x, y = a[1], b[1]
    if isinstance(y, tuple):
        if not isinstance(x, (tuple, list)) or len(x) != len(y):
            return '%r instead of %r' % (x, y)
        x, y = tuple(map(norm, x)), tuple(map(norm, y))
    else:
        x, y = norm(x), norm(y)
    return None if x == y else 'resolves to %r instead of %r' % (x, y)


def after(side, ev, out, m):
    """final state of the abstract system"""
    w = getattr(ev, 'world', None)
    where = [str(e.loc) for e in side.events if e.kind == 'os']
    k = w.k if w is not None else 0
    s = m['$os'].runs[min(k, len(m['$os'].runs) - 1)]
    want = closure(s.dirs)
    if w is not None:
        for i, ds in m['$os'].other.items():
            if i < w.nops:
                want |= closure(ds)
    made = m.get('makes')
    if made and out[0] == 'value' and m.get('create', True):
        want |= closure([norm(target(m, k))])
    have = w.dirs if w is not None else closure(s.dirs)
    other = [x for x in (w.log if w is not None else []) if x[0] != 'create']
    if other:
        return ('modifies something other than the cache directory: %s' % (other[0],), where)
    if have != want:
        miss, more = sorted(want - have), sorted(have - want)
        return ('%s' % ('does not create %s' % miss[0] if miss else 'creates %s, which was not asked for' % more[0]), where)
    return None


HOMES = ['/home/u', '/root']
ENVS = [None, '/tmp/kc', '/srv/k/cache', 'rel/kc']
BASES = [None, '/data/c', 'c', '/a/b/d']
NAMES = ['mnist', 'x/y', '', 'a b']


def world(e, h, dirs=(), other=(), **k):
    return OsSpec([Sys({} if e is None else {VAR: e}, h, dirs)], other=other, **k)


def find_models(with_base):
    def gen(tier, seed):
        for h in HOMES:
            for e in ENVS + ['', '~/kc']:
                for b in (BASES + ['', '~/c'] if with_base else [None]):
                    yield {'base': b, '$os': world(e, h)}
                    # the environment at import time is irrelevant
                    yield {'base': b, '$os': OsSpec([Sys({} if e is None else {VAR: e}, h)], load=Sys({VAR: '/import/time'}, '/other'))}
    return gen


def get_models(has_name, has_base, has_create, two=False):
    def gen(tier, seed):
        i = seed
        for e in ENVS:
            for b in (BASES if has_base else [None]):
                for n in (NAMES if has_name else ['']):
                    for c in ([True, False] if has_create else [True]):
                        i += 1
                        h = HOMES[i % 2]
                        m = dict(name=n, base=b, create=c, makes=True)
                        if e is not None and not b and not n and e == '':
                            continue
                        p = target(dict(m, **{'$os': world(e, h)}))
                        states = [(), [posixpath.dirname(norm(p)) or '.'], [p], [p, '/unrelated/x'], [p + '/content', p]]
                        for ds in states:
                            ds = [d for d in ds if d != '.']
                            yield dict(m, **{'$os': world(e, h, ds)})
                            yield dict(m, **{'$os': OsSpec([Sys({} if e is None else {VAR: e}, h, ds)], load=Sys({VAR: '/import/time'}, '/other'))})
                        par = posixpath.dirname(norm(p))
                        for k in range(6):
                            yield dict(m, **{'$os': world(e, h, (), other={k: (p,)})})
                            if par:
                                yield dict(m, **{'$os': world(e, h, (), other={k: (par,)})})
                                yield dict(m, **{'$os': world(e, h, (), other={k: (par,), k + 1: (p,)})})
    return gen


def twice_models(tier, seed):
    for e1 in ENVS:
        for e2 in ENVS:
            for b in (None, '/data/c'):
                yield {'name': 'n', 'base': b, 'makes': True,
                       '$os': OsSpec([Sys({} if e1 is None else {VAR: e1}, '/home/u'), Sys({} if e2 is None else {VAR: e2}, '/home/v', ['/home/v'])])}


def obligations(tier, seed):
    F, G = Obj(M, 'find_cache_base_dir'), Obj(M, 'get_cache_dir')
    n, b, c = atom('name', 'any'), atom('base', 'any'), atom('create', 'any')
    A = 'kymatio.caching.'
    for fn, args, wb in (('find', [], False), ('findn', [], False), ('findp', [b], True), ('findk', [b], True)):
        yield Ob('C11/find_cache_base_dir/' + fn, A + 'find_cache_base_dir', Term('cache.' + fn, [F] + args), find, find_models(wb), cmp=cmp, after=after, note='precedence of the base directory')
    for fn, args, k in (('get', [], (0, 0, 0)), ('get1', [n], (1, 0, 0)), ('getk', [n], (1, 0, 0)), ('get2', [n, b], (1, 1, 0)), ('get2k', [n, b], (1, 1, 0)),
                        ('get3', [n, b, c], (1, 1, 1)), ('get3k', [n, b, c], (1, 1, 1)), ('getc', [n, c], (1, 0, 1))):
        yield Ob('C11/get_cache_dir/' + fn, A + 'get_cache_dir', Term('cache.' + fn, [G] + args), get, get_models(*k), cmp=cmp, after=after, note='directory returned and created')
    yield Ob('C11/find_cache_base_dir/twice', A + 'find_cache_base_dir', Term('cache.findtwice', [F]), findtwice, twice_models, cmp=cmp, note='each call reads the environment anew')
    yield Ob('C11/get_cache_dir/twice', A + 'get_cache_dir', Term('cache.twice', [G, n, b]), twice, twice_models, cmp=cmp, after=after, note='each call reads the environment and the file system anew')
