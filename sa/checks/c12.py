"""C12: importing the library and using one frontend loads no other framework."""
import sys
import time
import traceback
from multiprocessing import get_context

from .. import lemma
from ..evalr import Evaluator, Undecided
from ..extract import atom
from ..interp import AnalysisError, Event, Interp
from ..lemma import Arr, Cls, FRONTENDS, FWN, Obj, Term
from ..models import A, ARGS, FAM
from .c03 import small
from .c13 import PUBLIC

EXPLANATION = ('roots: the package, its utility modules, each per-framework module, each frontend class and each use of it (construction, properties, metadata, call protocol, estimator and '
               'layer methods, entry-class dispatch). For each root a fresh abstract interpretation records every import it can execute - load closure of modules, imports inside '
               'functions, imports by name - with its path condition; each must resolve to the standard library, NumPy, SciPy, packaging, the package itself or the framework asked for')
TECHNIQUE = 'effect analysis of imports over the module load closure and the interpreted call paths, with guarded import events'
NOTE = ('Imports performed inside third-party packages are out of scope. A guarded import counts when its guard holds in one of the finite models or cannot be decided, except guards that ask '
        'sys.modules or TYPE_CHECKING.')
FLOOR = 1
COMMON = {'numpy', 'scipy', 'packaging'}
OWN = {'numpy': set(), 'torch': {'torch'}, 'tensorflow': {'tensorflow'}, 'keras': {'tensorflow', 'keras'}, 'jax': {'jax', 'jaxlib'}, 'sklearn': {'sklearn'}, None: set()}
STD = set(sys.stdlib_module_names)


def allowed(name, f, extra=()):
    top = name.split('.')[0]
    return top in STD or top in COMMON or top in OWN[f] or top in extra or top == 'kymatio' or top == 'spec'


def imports(evs):
    for e in evs:
        if e.kind == 'loop':
            yield from imports(e.data[1])
        elif e.kind == 'import':
            yield e


def lazy(guard):
    from ..nodes import Node
    seen, st = set(), list(guard)
    while st:
        n = st.pop()
        if isinstance(n, tuple):
            st.extend(n)
        elif isinstance(n, Node):
            if n.uid in seen:
                continue
            seen.add(n.uid)
            if n.op == 'ext' and n.args and str(n.args[0]) in ('sys.modules', 'typing.TYPE_CHECKING'):
                return True
            st.extend(n.args)
        elif type(n).__name__ == 'Ext' and str(getattr(n, 'name', '')) in ('sys.modules', 'typing.TYPE_CHECKING'):
            return True
    return False


USE = [dict(J=2, N=16)]


def tasks(tier, seed):
    """(id, anchor, frontend, modules loaded, term or None, models)"""
    for m in ('kymatio', 'kymatio.caching', 'kymatio.version', 'kymatio.scattering1d', 'kymatio.scattering2d', 'kymatio.scattering3d', 'kymatio.scattering1d.filter_bank',
              'kymatio.scattering2d.filter_bank', 'kymatio.scattering3d.filter_bank', 'kymatio.scattering1d.utils', 'kymatio.scattering2d.utils', 'kymatio.scattering3d.utils'):
        yield 'C12/load/' + m, m, None, [m], None, None
    yield 'C12/cache', 'kymatio.caching', None, [], Term('imp.cache', [Obj('kymatio.caching', 'find_cache_base_dir'), Obj('kymatio.caching', 'get_cache_dir'), atom('name', 'str'), atom('base', 'any')]), \
        [dict(name='a', base='/b')]
    for f in ('numpy', 'torch', 'tensorflow', 'keras', 'jax', 'sklearn'):
        yield 'C12/load/kymatio.' + f, 'kymatio.' + f, f, ['kymatio', 'kymatio.' + f], None, None
    n = {'1d': 4, 'jtfs': 3, '2d': 4, '3d': 4}
    for (t, f) in FRONTENDS:
        anchor = '%s.%s' % FRONTENDS[(t, f)][:2]
        fw = FWN[f]
        yield 'C12/load/%s' % FRONTENDS[(t, f)][0], anchor, f, [FRONTENDS[(t, f)][0]], None, None
        sh = {'1d': (16,), 'jtfs': (16,), '2d': (16, 16), '3d': (16, 16, 16)}[t]
        use = [dict(J=2, N=16, x=Arr((2,) + sh, 'float32', 1))]
        xjn = [atom('x', 'array'), atom('J', 'any'), atom('N', 'int')]
        if f == 'keras':
            yield 'C12/%s/%s/use' % (t, f), anchor, f, [], Term('imp.keras' + t, [Cls(t, f)] + xjn, fw), use
            yield 'C12/%s/%s/entry' % (t, f), anchor, f, [], Term('imp.kentry' + t, [Obj('kymatio', PUBLIC[t]), f] + xjn, fw), use
            continue
        mods = list(FAM[t](n[t], 8 * n[t], dtype='float32', batches=[(2,), ()], filt=small(t))(tier, seed))
        yield 'C12/%s/%s/use' % (t, f), anchor, f, [], Term('imp.use' + t, [Cls(t, f)] + A('x', *ARGS[t]), fw), mods
        yield 'C12/%s/%s/call' % (t, f), anchor, f, [], Term('imp.dunder' + t, [Cls(t, f)] + xjn, fw), use
        for name in (f, f.upper()):
            yield 'C12/%s/%s/entry=%s' % (t, f, name), anchor, f, [], Term('imp.entry' + t, [Obj('kymatio', PUBLIC[t]), name] + xjn, fw), use
        if f == 'sklearn':
            yield 'C12/%s/%s/estimator' % (t, f), anchor, f, [], Term('imp.sk' + t, [Cls(t, f)] + xjn, fw), [dict(J=2, N=16, x=Arr((2, int(sh[0] ** len(sh))), 'float32', 1))]


_T = []


def work(a):
    i, = a
    oid, anchor, f, mods, term, models = _T[i]
    res = dict(id=oid, anchor=anchor, status='held', models=0, values=0, raises=0, undecided=0, sites=0, proved=False, nodes=0, viol=None, und=[], files={}, note='', optional=oid.startswith('C12/load/kymatio.scattering'))
    t0 = time.time()
    try:
        lemma._PROJECT.clear()
        lemma._IP[0] = None
        ip = lemma._IP[0] = Interp(lemma.project(), eager=False)
        evs = []
        orig = type(ip).event

        def event(kind, data):
            if kind == 'import':
                evs.append(Event(kind, ip.st.pc, data, ip.loc()))
            return orig(ip, kind, data)
        ip.event = event
        for m in mods:
            pm = ip.project.modules.get(m)
            if pm is None:
                raise AnalysisError('module %s vanished' % m)
            ip.load_module(pm)
        side = None
        if term is not None:
            ip.fw = term.fw
            fn = lemma.module_obj(ip, 'spec.' + term.fn.split('.')[0], term.fn.split('.')[1])
            side = lemma.Side()
            side.fw = term.fw
            side.result = ip.freeze(ip.call(fn, [lemma.resolve_arg(ip, a) for a in term.args], {}))
            side.events = list(ip.st.events)
            res['nodes'], files = lemma.graph_size(side)
            res['files'] = {k: sorted(v) for k, v in files.items() if not k.startswith('sa/')}
        res['sites'] = len(evs)
        res['files'].update({m.path.replace(lemma.ROOT + '/', ''): ['<module>'] for m in ip.project.modules.values() if m.loaded and m.name.startswith('kymatio')})
        reach = None
        for e in evs:
            if allowed(e.data, f) or lazy(e.guard):
                continue
            hit = None
            if not e.guard:
                hit = 'always'
            else:
                for md in (models or [{}]):
                    try:
                        ev = Evaluator(lemma.atoms_for(md, side.fw if side else 'np'), ip)
                        if ev.guard(e.guard, {}):
                            hit = str(lemma.show_model(md))
                            break
                    except Undecided as x:
                        hit = 'guard not decided: %s' % x
                        break
                    except Exception as x:      # inside a loop: the guard mentions its binder
                        hit = 'guard not decided: %s' % type(x).__name__
                        break
            if hit:
                res['status'] = 'violated'
                res['viol'] = dict(msg='imports %s, which %s does not ask for' % (e.data, 'the %s frontend' % f if f else 'the library'), model=hit, where=[str(e.loc)])
                break
        res['models'] = len(models or [0])
    except AnalysisError as e:
        res['status'] = 'anchor' if 'vanished' in str(e) else 'undecided'
        res['und'].append(str(e)[:200])
    except Exception:
        res['status'] = 'undecided'
        res['und'].append('internal: ' + ' | '.join(traceback.format_exc().splitlines()[-3:])[:400])
    res['wall'] = round(time.time() - t0, 2)
    return res


def rules(tier, seed):
    global _T
    _T = list(tasks(tier, seed))
    with get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        return list(pool.imap(work, [(i,) for i in range(len(_T))], chunksize=1))
