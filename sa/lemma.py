"""Equational obligations over extracted value graphs.

An obligation states that two terms denote the same function of the symbolic parameters.  Each side is a call of a
function of an analysed module (usually a small term of sa/specs/*.py applied to a class of the repository); both sides
are turned into value graphs by abstract interpretation of the sources, then compared

  1. syntactically, as hash-consed normal forms (equal nodes: the equation holds for every input), and otherwise
  2. by algebraic fingerprints of the normal forms in a family of finite models (sa/evalr.py).

A difference counts only when it is definite (no node of either side without a denotation) and persists under other
array fingerprints.
"""
import hashlib
import os
import signal
import sys
import time
import traceback
from multiprocessing import get_context

import numpy as np

from .nodes import Node, Loop, mk, is_const
from .interp import Project, Interp, AnalysisError
from .hosts import ClassVal
from .evalr import Evaluator, AV, Undecided, PyRaise, close, is_av, deep
from .extract import FRONTENDS, atom, get_class

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get('KYM_REPO', '/repo')
FWN = {'numpy': 'np', 'torch': 'torch', 'tensorflow': 'tf', 'jax': 'jax', 'sklearn': 'np', 'keras': 'tf'}


class Arr:
    """array atom of a model: shape, nominal dtype, fingerprint seed, distribution"""
    def __init__(self, shape, dtype='float32', seed=0, dist='normal', fw=None, strided=False):
        self.shape, self.dtype, self.seed, self.dist, self.fw, self.strided = tuple(shape), dtype, seed, dist, fw, strided

    def make(self, fw, salt=0):
        rng = np.random.default_rng([self.seed, salt, 77])
        if self.dist == 'const':
            a = np.full(self.shape, 1.7 + salt)
        elif self.dist == 'somezero':
            a = rng.standard_normal(self.shape)
            if a.ndim:
                a[np.broadcast_to(rng.random(self.shape[:-1] + (1,)) < 0.4, self.shape)] = 0
        elif self.dist == 'zero':
            a = np.zeros(self.shape)
        else:
            a = rng.standard_normal(self.shape)
            if self.dist.startswith('scale:'):
                a = a * float(self.dist[6:])
        if self.dtype.startswith('complex'):
            a = a + 1j * rng.standard_normal(self.shape)
        elif self.dtype.startswith('int'):
            a = np.round(a * 10).astype(np.int64)
        if self.strided == 'crop':
            # rows cut out of longer rows
            a = np.concatenate([a, a[..., :1]], axis=-1)[..., :-1]
        elif self.strided == 'batch':
            # every second element of a batch
            a = np.repeat(a, 2, axis=0)[::2]
        elif self.strided == 'swap':
            # transposed storage
            a = np.swapaxes(np.swapaxes(a, -1, -2).copy(), -1, -2)
        elif self.strided == 'flip':
            a = np.flip(np.flip(a, -1).copy(), -1)
        elif self.strided:
            i = max(a.ndim - 2, 0)
            a = np.repeat(a, 2, axis=i)[(slice(None),) * i + (slice(None, None, 2),)]
        return AV(a, self.dtype, self.fw or fw)

    def __repr__(self):
        return 'array%s:%s%s%s%s' % (list(self.shape), self.dtype, '' if self.dist == 'normal' else ':' + self.dist, ':' + self.fw if self.fw else '',
                                     (':non-contiguous' + (' (%s)' % self.strided if isinstance(self.strided, str) else '')) if self.strided else '')


class Part(Arr):
    """array atom equal to parent[index]"""
    def __init__(self, parent, index):
        Arr.__init__(self, np.empty(parent.shape)[index].shape, parent.dtype)
        self.parent, self.index = parent, index

    def make(self, fw, salt=0):
        v = self.parent.make(fw, salt)
        return AV(v.a[self.index], v.dt, fw)


class Cls:
    """argument denoting a frontend class of the repository"""
    def __init__(self, *key):
        self.key = key


class Obj:
    """argument denoting any module-level object of the analysed sources"""
    def __init__(self, module, name):
        self.module, self.name = module, name


class Term:
    def __init__(self, fn, args, fw='np'):
        self.fn, self.args, self.fw = fn, args, fw


class Ob:
    """obligation lhs == rhs.  rhs: a Term, or a function model -> outcome; or rel: a function (model, run) -> outcome where
    run(model') denotes lhs in another model (relational obligations); post(outcome) normalises lhs before comparison;
    after(side, evaluator, outcome, model) -> (msg, places)|None judges the evaluation of lhs;
    watch(side) -> (wanted, judge): events of lhs that judge(ev, event, env) -> msg|None turns into violations"""
    def __init__(self, oid, anchor, lhs, rhs, models, cmp=None, legal=None, note='', spec=None, optional=False, budget=None, tol=1e-6,
                 rel=None, post=None, watch=None, after=None, internal=False):
        self.after = after
        self.rel, self.post, self.watch = rel, post, watch
        self.id, self.anchor, self.lhs, self.rhs, self.models = oid, anchor, lhs, rhs, models
        self.internal = internal
        self.cmp, self.legal, self.note, self.optional, self.budget, self.tol = cmp, legal, note, optional, budget, tol


class Side:
    pass


_PROJECT = {}


def project():
    p = _PROJECT.get(ROOT)
    if p is None:
        p = Project(ROOT)
        d = os.path.join(HERE, 'specs')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                p.add_virtual('spec.' + f[:-3], os.path.join(d, f))
        _PROJECT[ROOT] = p
    return p


_IP = [None]


def interp():
    if _IP[0] is None:
        _IP[0] = Interp(project())
    return _IP[0]


def module_obj(ip, modname, name):
    m = ip.project.modules.get(modname)
    if m is None:
        raise AnalysisError('module %s vanished' % modname)
    ip.load_module(m)
    v = ip.st.frames.get(m.fid, {})
    parts = name.split('.')
    if parts[0] not in v:
        raise AnalysisError('%s.%s vanished' % (modname, name))
    r = v[parts[0]]
    for p in parts[1:]:
        r = ip.getattr(r, p)
    return r


def resolve_arg(ip, a):
    if isinstance(a, Cls):
        mod, cn, _ = FRONTENDS[a.key]
        return get_class(ip, mod, cn)
    if isinstance(a, Obj):
        return module_obj(ip, a.module, a.name)
    if isinstance(a, tuple):
        return tuple(resolve_arg(ip, x) for x in a)
    return a


def ip_reset(ip):
    # module loading must survive: the base state holds the loaded modules
    ip.reset()


_SIDES = {}


def extract_term(t):
    ip = interp()
    if isinstance(t.fn, Obj):
        mod, name = t.fn.module, t.fn.name
    else:
        mod, name = 'spec.' + t.fn.split('.')[0], t.fn.split('.')[1]
    # load everything first so that it stays in the base state
    def pre(a):
        if isinstance(a, (Cls, Obj)):
            resolve_arg(ip, a)
        elif isinstance(a, tuple):
            for x in a:
                pre(x)
    ip.fw = t.fw
    ip.reset()
    f = module_obj(ip, mod, name)
    for a in t.args:
        pre(a)
    ip.reset()
    f = module_obj(ip, mod, name)
    s = Side()
    s.t0 = time.time()
    r = ip.call(f, [resolve_arg(ip, a) for a in t.args], {})
    s.result = ip.freeze(r)
    s.events = list(ip.st.events)
    s.st = ip.st
    s.faults = ip.faultnodes
    s.opaques = list(ip.opaques)
    s.dead = ip.st.dead
    s.fw = t.fw
    s.time = time.time() - s.t0
    return s


def graph_size(s):
    seen = set()
    ops = {}
    stack = [s.result] + [x for e in s.events for x in (e.guard if e.kind != 'loop' else ())]
    files = {}
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if isinstance(x, Loop):
            if ('L', id(x)) in seen:
                continue
            seen.add(('L', id(x)))
            stack.extend([x.count, x.wcond, x.brk])
            for c in x.carries.values():
                stack.extend(c[1:])
            continue
        if not isinstance(x, Node) or x.uid in seen:
            continue
        seen.add(x.uid)
        if x.loc is not None:
            files.setdefault(str(x.loc[0]), set()).add(str(x.loc[2]))
        stack.extend(x.args)
    return len(seen), files


def atoms_for(model, fw, salt=0):
    out = {}
    for k, v in model.items():
        if isinstance(v, Arr):
            v = v.make(fw, salt)
        out[k] = v
    return out


def evaluate(side, model, salt=0, record=None, want=False):
    ip = interp()
    ip.st = side.st
    ip.faultnodes = side.faults
    ev = Evaluator(atoms_for(model, side.fw, salt), ip, record=record)
    o = ev.outcome(side.events, side.result)
    return (o, ev) if want else o


def default_cmp(a, b, model, tol=1e-6):
    if a[0] == 'raise' or b[0] == 'raise':
        if a[0] == b[0]:
            return None if a[1] == b[1] else 'raises %s where %s is expected' % (a[1], b[1])
        if a[0] == 'raise':
            return 'raises %s at %s%s where a value is expected' % (a[1], a[2], (' (%s)' % a[3]) if a[3] else '')
        return 'returns a value where %s is expected' % b[1]
    return close(a[1], b[1], tol)


def canon(v):
    a = v.a
    if v.fw == 'torch' and a.ndim and a.shape[-1] == 2 and a.dtype.kind == 'f':
        a = a[..., 0] + 1j * a[..., 1]
    return a


def key_of(v):
    a = canon(v)
    if a.size == 0:
        return ('e',) + a.shape
    b = np.asarray(a).reshape(-1)
    if b.dtype == object or b.dtype.kind in 'US':
        return None
    b = b.astype(np.complex128)
    n = np.linalg.norm(b)
    w = np.sum(b * np.cos(1 + np.arange(b.size)))
    if not np.isfinite(n):
        return ('nan', b.size)
    r = lambda z: float('%.5g' % z) if abs(z) > 1e-9 * n else 0.0
    return (b.size, r(n), r(w.real), r(w.imag))


def blame(evl, evr):
    """first nodes of the left graph whose array value never occurs on the right"""
    vals = set()
    for r in evr.memo.values():
        if r[0] is None and is_av(r[1]):
            vals.add(key_of(r[1]))
    out = []
    from .nodes import BYUID
    for k, r in evl.memo.items():
        if r[0] is not None or not is_av(r[1]) or r[1].a.ndim == 0:
            continue
        n = BYUID(k[0] if isinstance(k, tuple) else k)
        if n is None or n.loc is None or str(n.loc[0]).startswith('sa/'):
            continue
        if key_of(r[1]) not in vals:
            s = str(n.loc)
            if s not in out:
                out.append(s)
            if len(out) >= 4:
                break
    return out


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def run_ob(ob, tier, seed, deadline):
    """returns a result dict"""
    res = dict(id=ob.id, anchor=ob.anchor, status='held', models=0, values=0, raises=0, undecided=0, proved=False, nodes=0,
               viol=None, und=[], decisions=0, both=0, files={}, note=ob.note, trivial=0)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    limit = max(5, min(ob.budget or 1e9, deadline - t0))
    signal.alarm(int(limit) + 1)
    try:
        try:
            L = extract_term(ob.lhs)
            R = extract_term(ob.rhs) if isinstance(ob.rhs, Term) else None
        except AnalysisError as e:
            if 'vanished' in str(e):
                res['status'] = 'anchor'
                res['und'].append(str(e))
                return res
            raise
        res['opaques'] = sorted(set(map(str, L.opaques)))[:5]
        res['nodes'], files = graph_size(L)
        if R is not None:
            n2, f2 = graph_size(R)
            res['nodes'] += n2
            for k, v in f2.items():
                files.setdefault(k, set()).update(v)
        res['files'] = {k: sorted(v) for k, v in files.items() if not k.startswith('sa/')}
        if R is not None and L.result is R.result and not any(e.kind in ('raise',) for e in L.events + R.events):
            res['proved'] = True
        record = {}
        watch = ob.watch(L) if ob.watch else None
        for model in ob.models(tier, seed):
            if time.time() - t0 > limit:
                break
            if ob.legal is not None and not ob.legal(model):
                continue
            def sides(salt, rec=None):
                if R is not None:
                    a, ea = evaluate(L, model, salt, rec, want=True)
                    b, eb = evaluate(R, model, salt, want=True)
                else:
                    a, ea = evaluate(L, model, salt, rec, want=True)
                    eb = None
                    b = ob.rel(model, lambda m: evaluate(L, m, salt)) if ob.rel else ob.rhs(model)
                if ob.post:
                    a = ob.post(a, model)
                return a, b, ea, eb
            try:
                a, b, ea, _ = sides(0, record)
                if watch and a[0] == 'value':
                    for e, env in ea.walk(L.events, {}, watch[0]):
                        res['sites'] = res.get('sites', 0) + 1
                        msg = watch[1](ea, e, env)
                        if msg:
                            res['status'] = 'violated'
                            res['viol'] = dict(msg=msg, model=show_model(model), where=[str(e.loc)])
                            break
                    if res['viol']:
                        res['models'] += 1
                        break
            except Undecided as e:
                res['undecided'] += 1
                m = str(e)[:160]
                if m not in res['und'] and len(res['und']) < 6:
                    res['und'].append(m)
                continue
            if ob.internal and a[0] == 'raise' and a[1] in ('TypeError', 'AttributeError', 'KeyError') and str(a[2]).startswith('sa/'):
                # an internal helper is free to change its signature: what it then computes is not judged here
                res['undecided'] += 1
                res['und'] = (res['und'] + ['the helper no longer has this signature'])[:6]
                continue
            res['models'] += 1
            res['values'] += a[0] == 'value'
            res['raises'] += a[0] == 'raise'
            if ob.after:
                msg = ob.after(L, ea, a, model)
                if msg:
                    res['status'] = 'violated'
                    res['viol'] = dict(msg=msg[0], model=show_model(model), where=[str(w) for w in msg[1]])
                    break
            cmpf = ob.cmp or (lambda x, y, m: default_cmp(x, y, m, ob.tol))
            msg = cmpf(a, b, model)
            if msg:
                # confirm under other fingerprints
                try:
                    ok = True
                    for salt in (1, 2):
                        a2, b2, ea, eb = sides(salt)
                        if not cmpf(a2, b2, model):
                            ok = False
                            break
                except Undecided:
                    ok = False
                if not ok:
                    continue
                where = []
                if a2[0] == 'raise':
                    where = [a2[2]]
                elif b2[0] == 'raise' and R is not None and not str(b2[2]).startswith('sa/'):
                    where = [b2[2]]
                elif R is not None:
                    where = blame(ea, eb) or blame(eb, ea)
                res['status'] = 'violated'
                res['viol'] = dict(msg=str(msg)[:400], model=show_model(model), where=[str(w) for w in where])
                break
        res['decisions'] = len(record)
        res['both'] = sum(1 for v in record.values() if len(v) == 2)
        if res['status'] == 'held' and not res['models'] and not res['proved']:
            res['status'] = 'undecided'
    except Timeout:
        if res['status'] == 'held' and not res['models']:
            res['status'] = 'undecided'
        res['und'].append('time limit')
    except (AnalysisError, RecursionError) as e:
        res['status'] = 'undecided'
        res['und'].append('%s: %s' % (type(e).__name__, str(e)[:200]))
    except Undecided as e:
        res['status'] = 'undecided'
        res['und'].append(str(e)[:200])
    except Exception as e:
        res['status'] = 'undecided'
        res['und'].append('internal: ' + ' | '.join(traceback.format_exc().splitlines()[-3:])[:400])
    finally:
        signal.alarm(0)
        res['wall'] = round(time.time() - t0, 2)
    return res


def show_model(m):
    return {k: (repr(v) if not isinstance(v, (int, float, str, type(None), bool)) else v) for k, v in m.items()}


_JOBS = []


def _work(a):
    i, tier, seed, deadline = a
    return run_ob(_JOBS[i], tier, seed, deadline)


def run_obs(obs, tier, seed, budget, procs=None):
    """run obligations in parallel worker processes"""
    global _JOBS
    _JOBS = list(obs)
    deadline = time.time() + budget
    interp()                      # parse before forking
    procs = procs or min(8, os.cpu_count() or 4)
    if procs == 1 or len(_JOBS) <= 1:
        return [_work((i, tier, seed, deadline)) for i in range(len(_JOBS))]
    ctx = get_context('fork')
    out = []
    with ctx.Pool(procs, maxtasksperchild=4) as pool:
        for r in pool.imap(_work, [(i, tier, seed, deadline) for i in range(len(_JOBS))], chunksize=1):
            out.append(r)
    return out
