"""C02: every constructor parameter takes effect on every frontend."""
from ..lemma import Ob, Term, Cls, FWN, FRONTENDS, default_cmp
from ..models import A, ARGS, FAM
from ..extract import atom

EXPLANATION = ('per frontend class: construction by position, by keyword and with the defaults left out, against the documented cascade evaluated at the parameter '
               'values the user gave or the documented defaults; documented attributes against the same values')
TECHNIQUE = 'value-graph extraction by abstract interpretation; comparison with a dense specification graph by random-interpretation value numbering'
NOTE = ('Decided per finite model of the parameters; models vary every parameter. Parameters without an effect on the returned values (points with method="integral") '
        'are only checked as attributes.')
FLOOR = 1
NAME = {'numpy': 'numpy', 'torch': 'torch', 'tensorflow': 'tensorflow', 'jax': 'jax', 'sklearn': 'numpy'}
SPEC = {'1d': 'params.sp1d', 'jtfs': 'refjtfs.specjtfs', '2d': 'params.sp2d', '3d': 'params.sp3d'}
NQ = {'1d': 30, 'jtfs': 12, '2d': 8, '3d': 16}
NT = {'1d': 300, 'jtfs': 120, '2d': 60, '3d': 200}
SMALL = [(), (2,)]


def small2d(m):
    return m['J'] <= 2 and m['L'] <= 3 and m['M'] * m['N'] <= 150


def dflt(t):
    def g(tier, seed):
        n = 0
        for m in FAM[t](400, 800, dtype='float32', batches=SMALL, **({'pre': False} if t == '2d' else {}))(tier, seed):
            if t == '1d' and m['J'] > 5 or t == '2d' and (m['J'] > 2 or m['M'] * m['N'] > 100) or t == '3d' and (m['J'] > 1 or m['M'] * m['N'] * m['O'] > 200):
                continue
            if t == 'jtfs' and m['J'] > 4:
                continue
            n += 1
            yield m
            if n >= (6 if tier == 'quick' else 30) // (3 if t == '2d' else 1):
                return
    return g


def attrs(a, b, m):
    if a[0] == 'raise' and a[1] == 'AssertionError':
        # a refused filterbank; the obligations on the results compare the refusals themselves
        return None
    return default_cmp(a, b, m)


REQ = {'1d': ['J', 'N'], 'jtfs': ['J', 'J_fr', 'N', 'Q1'], '2d': ['J', 'M', 'N'], '3d': ['J', 'M', 'N', 'O']}


def obligations(tier, seed):
    for (t, f) in FRONTENDS:
        anchor = '%s.%s' % FRONTENDS[(t, f)][:2]
        fw = FWN[f]
        if f == 'keras':
            yield from keras(t, f, anchor, tier)
            continue
        a = A('x', *ARGS[t])
        ref = [Cls(t, 'numpy')] + a
        kw = dict(filt=small2d) if t == '2d' else {}
        fam = FAM[t](NQ[t], NT[t], dtype='float32', batches=SMALL, **kw)
        b = [NAME[f]]
        yield Ob('C02/%s/%s/positional' % (t, f), anchor, Term('params.pos' + t, [Cls(t, f)] + a + (b if t == '2d' else []), fw), Term(SPEC[t], ref, 'np'), fam,
                 note='%s on %s, parameters given by position in the documented order' % (t, f))
        yield Ob('C02/%s/%s/keyword' % (t, f), anchor, Term('params.key' + t, [Cls(t, f)] + a + b, fw), Term(SPEC[t], ref, 'np'), fam,
                 note='%s on %s, parameters given by keyword' % (t, f))
        r = A('x', *REQ[t])
        yield Ob('C02/%s/%s/defaults' % (t, f), anchor, Term('params.def' + t, [Cls(t, f)] + r, fw), Term('params.dsp' + t, [Cls(t, 'numpy')] + r, 'np'), dflt(t),
                 note='%s on %s with the defaults left out' % (t, f))
        if t == '1d':
            yield Ob('C02/%s/%s/defaultsQ' % (t, f), anchor, Term('params.def1dQ', [Cls(t, f)] + A('x', 'J', 'N', 'Q1'), fw),
                     Term('params.dsp1dQ', [Cls(t, 'numpy')] + A('x', 'J', 'N', 'Q1'), 'np'), dflt(t), note='integer Q means (Q, 1)')
        p = A(*ARGS[t])
        yield Ob('C02/%s/%s/attributes' % (t, f), anchor, Term('params.att' + t, [Cls(t, f)] + p, fw), Term('params.satt' + t, [Cls(t, f)] + p, fw), fam, cmp=attrs,
                 note='documented attributes of %s on %s' % (t, f))


K1 = ['J', 'N', 'Q1', 'Q2', 'T', 'max_order', 'oversampling']
K2 = ['J', 'M', 'N', 'L', 'max_order', 'pre_pad']


def keras(t, f, anchor, tier):
    if t == '1d':
        a = A('x', *K1)
        fam = FAM['1d'](20, 200, dtype='float32', batches=[(2,), (1,), (3,)], filt=lambda m: m['T'] != 0 and m['stride'] is None)
        for w in ('keras', 'keraspos'):
            yield Ob('C02/1d/keras/%s' % {'keras': 'keyword', 'keraspos': 'positional'}[w], anchor, Term('params.%s1d' % w, [Cls(t, f)] + a, 'tf'),
                     Term('params.skeras1d', [Cls('1d', 'tensorflow')] + a, 'tf'), fam, note='Keras 1D layer')
        yield Ob('C02/1d/keras/defaults', anchor, Term('params.kerasdef1d', [Cls(t, f)] + A('x', 'J', 'N'), 'tf'),
                 Term('params.dsp1d', [Cls('1d', 'tensorflow')] + A('x', 'J', 'N'), 'tf'), dflt('1d'), note='Keras 1D layer, defaults')
    else:
        a = A('x', *K2)
        fam = FAM['2d'](8, 60, dtype='float32', batches=[(2,), (1,), (2, 2)], filt=small2d)
        for w in ('keras', 'keraspos'):
            yield Ob('C02/2d/keras/%s' % {'keras': 'keyword', 'keraspos': 'positional'}[w], anchor, Term('params.%s2d' % w, [Cls(t, f)] + a, 'tf'),
                     Term('params.skeras2d', [Cls('2d', 'tensorflow')] + a, 'tf'), fam, note='Keras 2D layer')
        yield Ob('C02/2d/keras/defaults', anchor, Term('params.kerasdef2d', [Cls(t, f)] + A('x', 'J', 'M', 'N'), 'tf'),
                 Term('params.dsp2d', [Cls('2d', 'tensorflow')] + A('x', 'J', 'M', 'N'), 'tf'), dflt('2d'), note='Keras 2D layer, defaults')
