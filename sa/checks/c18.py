"""C18: every filter is applied at the resolution of the signal it multiplies."""
from ..lemma import Ob, Term, Cls, Obj, FWN, FRONTENDS
from ..evalr import force, deep
from ..models import A, ARGS, FAM
from .c19 import num
from .c03 import small

EXPLANATION = ('the transforms extracted with a backend whose values carry, instead of samples, their number of samples, their subsampling and the list of everything done to '
               'them, and with filters that carry their name, level and number of samples; every multiplication, subsampling, averaging and unpadding of every path is then judged')
TECHNIQUE = 'abstract interpretation over the resolution domain: value-graph extraction with a history-carrying backend, rules over each operation of each path'
NOTE = ('The set of paths and levels is decided per finite model of the configuration. A level that does not exist is an IndexError of the extracted program. Strides '
        'larger than the averaging scale are outside the documented range.')
FLOOR = 1


def text(v):
    v = force(v)
    if isinstance(v, (tuple, list)):
        return tuple(text(k) for k in v)
    if isinstance(v, str):
        return v
    return num(v)


def log2(v):
    return int(v).bit_length() - 1


def walk(log, m, n, t):
    """judge one path; returns a message, or the number of rules applied"""
    count = 0
    for step in log:
        step = [force(v) for v in force(step)]
        kind, rest = step[0], step[1:]
        if kind == 'filter':
            who, size, have, at, swap = [text(v) for v in rest]
            if size != have:
                return '%s %d at level %d has %s samples; the spectrum it multiplies has %s' % (who[0], who[1], who[2], size, have)
            if 2 ** who[2] != at:
                return '%s %d is used at level %d on a signal subsampled by %d' % (who[0], who[1], who[2], at)
        elif kind == 'subsample':
            k, left, at, j, who = [text(v) for v in rest]
            if left:
                return 'a signal whose length is not a multiple of %d is subsampled by it' % k
            if k < 1 or at > 2 ** max(j, 0):
                return 'after %s %d of scale %d the signal is subsampled by %d' % (who[0], who[1], j, at)
        elif kind == 'unpad':
            i0, i1, sub, size = [num(v) for v in rest]
            if m.get('T') == 'global':
                continue
            left = m['left']
            want = (-(-left // sub), -(-(left + m['N']) // sub))
            if (i0, i1) != want or i1 > size:
                return 'a signal subsampled by %d is cut at [%d:%d] of %d samples; its support is [%d:%d]' % (sub, i0, i1, size, want[0], want[1])
        elif kind == 'keeprows':
            top, stride, fr = [num(v) for v in rest]
            if m.get('F') != 'global' and stride != fr:
                return 'frequency rows subsampled by %d are kept as if by %d' % (fr, stride)
        elif kind == 'stack':
            rows = [text(v) for v in force(rest[0])]
            if len(set(rows)) != 1:
                return 'signals of resolutions %s are stacked' % sorted(set(rows))
        count += 1
    return count


def judge(t):
    def cmp(a, b, m):
        if a[0] == 'raise':
            return None if a[1] == 'AssertionError' else 'raises %s at %s: %s' % (a[1], a[2], a[3])
        left, j1, j2, rows, jf = [force(v) for v in force(a[1])]
        js = [[num(v) for v in j1], [num(v) for v in j2]]
        jf = [num(v) for v in jf]
        m = dict(m, left=num(left))
        J, N, T = m['J'], m.get('N'), m.get('T')
        if not rows:
            return 'no coefficients'
        for row in rows:
            n, c = [force(v) for v in force(row)]
            n = text(n)
            msg = walk(force(c['log']), m, n, t)
            if isinstance(msg, str):
                return 'path %s: %s' % (n, msg)
            sub = num(c['sub'])
            if t == '2d':
                want = 2 ** J
            else:
                tv = 2 ** J if T in (None, 0, 'global') else T
                want = 2 ** log2(tv)
                if m['stride'] is not None:
                    want = m['stride']
                elif m.get('oversampling'):
                    want >>= m['oversampling']
                if T in (0, 'global'):
                    # own scale of the path, except the first order of the joint transform, which is always averaged
                    own = None
                    if t == '1d':
                        own = 2 ** ([0] + [js[k][n[k]] for k in range(len(n))])[-1]
                    elif len(n) == 2:
                        own = 2 ** js[1][n[0]]
                    elif not n:
                        own = 1
                    if own is not None:
                        want = own
            if sub != want:
                return 'path %s ends subsampled by %d instead of %d' % (n, sub, want)
            if t == 'jtfs' and n and m['F'] != 'global':
                fr = num(c['fr'])
                want = 2 ** max(jf[n[-1]], 0) if m['F'] == 0 else m['stride_fr'] if m['stride_fr'] is not None else 2 ** (m['J_fr'] if m['F'] is None else log2(m['F']))
                if fr != want:
                    return 'path %s ends with frequency rows subsampled by %d instead of %d' % (n, fr, want)
    return cmp


def obligations(tier, seed):
    core2 = Obj('kymatio.scattering2d.core.scattering2d', 'scattering2d')
    for (t, f) in FRONTENDS:
        if t == '3d' or f not in ('numpy', 'tensorflow', 'jax', 'sklearn'):
            continue
        if t == '2d' and f != 'numpy':
            continue
        n = {'1d': 60, 'jtfs': 30, '2d': 8}[t] * (2 if f == 'numpy' else 1)
        filt = {'jtfs': small(t), '2d': lambda m: m['J'] in (2, 3) and m['L'] <= 3 and m['M'] * m['N'] <= 600}.get(t)
        yield Ob('C18/%s/%s' % (t, f), '%s.%s' % FRONTENDS[(t, f)][:2], Term('track.t' + t, [Cls(t, f)] + ([core2] if t == '2d' else []) + A('x', *ARGS[t]), 'np'), lambda m: ('value', None),
                 FAM[t](n, n * 15, dtype='float32', filt=filt, batches=[(2,)]), cmp=judge(t), internal=True, note='filters, subsampling and cuts along every path')
    # averaging in log-frequency wider than the largest frequential wavelet
    def wide(tier, seed):
        for i, m in enumerate(FAM['jtfs'](60, 600, dtype='float32', filt=small('jtfs'), batches=[(2,)])(tier, seed)):
            top = (m['J'] + 1) * m['Q1']
            J_fr = min(m['J_fr'], 2)
            if top >= 2 ** (J_fr + 1):
                yield dict(m, J_fr=J_fr, F=2 ** (J_fr + 1) if i % 2 else top, stride_fr=None)
    yield Ob('C18/jtfs/numpy/wide', '%s.%s' % FRONTENDS[('jtfs', 'numpy')][:2], Term('track.tjtfs', [Cls('jtfs', 'numpy')] + A('x', *ARGS['jtfs']), 'np'), lambda m: ('value', None), wide,
             cmp=judge('jtfs'), internal=True, note='log-frequency averaging of width F larger than 2 ** J_fr')
