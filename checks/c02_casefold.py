"""C02: ignoring case adds exactly the simple upper/lower case counterparts of what the user wrote, for single characters and ranges alike."""
import itertools
from common import *
from charset_text import case_map, ranges
from c01_unicode import unwrap

SKIP = {'error', 'unexpected_end', 'narrow'}


def run(ctx):
    ctx.rule('table', 'the case tables map every cased letter of the Unicode Character Database to its simple counterpart and nothing else', 3)
    ctx.rule('sorted', 'table entries are in ascending order and do not overlap (the search stops early)', 6)
    ctx.rule('entry', 'for every way a range can lie relative to a table entry, exactly the counterparts of the overlap are added', 400)
    ctx.rule('every-entry', 'the search visits every entry that can overlap the range', 12)
    ctx.rule('both-tables', 'ranges that reach into the first 65536 characters are looked up in both tables', 3)
    ctx.rule('one-byte', 'for 8 bit characters each character of the range is given its locale counterpart', 2)
    ctx.rule('applied', 'whenever a character or range of the regex is added while case is ignored, its counterparts are added as well, and only then', 40)
    ctx.rule('negate-last', 'a bracket expression is complemented after counterparts were added', 0)
    ctx.rule('negate', 'a bracket expression is complemented exactly when it starts with \'^\'', 7)
    ctx.assume('token sets behave as sets (C25)', 'std::toupper/std::tolower give the locale\'s counterparts')
    F = ctx.facts('d_core')
    icase = enumerator(F, 'icase')
    for cls in sorted({f['cls'] for f in F.find(name='fold', clsname='basic_re_tokeniser_helper')}):
        fs = [f for f in F.find(name='fold', clsname='basic_re_tokeniser_helper') if f['cls'] == cls]
        tabs = {}
        for f in fs:
            G = tables(F, f)
            if G:
                tabs[f['id']] = decode(F, G[0])
        for f in fs:
            who = '%s:%s' % (short(cls), short(f['params'][3]['t']).split('::')[-1])
            if f['id'] in tabs:
                algorithm(ctx, F, f, who, tabs, fs)
            elif f['id'] not in tabs and 'body' in f:
                onebyte(ctx, F, f, who)
        if tabs:
            union, bad = {}, []
            for t in tabs.values():
                for a, b, c, d in t:
                    if abs(d - c) != b - a:
                        bad.append('%X-%X maps to a range of another length' % (a, b))
                    for i in range(b - a + 1):
                        union.setdefault(a + i, set()).add(c + i if c <= d else c - i)
            want = case_map()
            for k in sorted(set(union) | set(want)):
                if union.get(k) != ({want[k]} if k in want else None):
                    bad.append('%X: %s, should be %s' % (k, ','.join('%X' % x for x in union.get(k, ())) or 'nothing',
                                                         '%X' % want[k] if k in want else 'nothing'))
            g = tables(F, next(f for f in fs if f['id'] in tabs))[0]
            ctx.check(not bad, 'table', short(cls), '%s:%s' % (F.rel(g['file']), g['l']), '; '.join(bad[:4]))
    applied(ctx, F, icase)


def enumerator(F, name):
    for e in F.enums:
        for v in e['vals']:
            if v['n'] == name:
                return v['v']
    raise CheckError('enumerator %s not found' % name)


def tables(F, f):
    return [g for g in F.globals if 'fold_pair' in g['t'] and any(n.get('d') == g['d'] for n in nodes(f.get('body', {}), 'ref'))]


def const(F, e):
    e = unwrap(e)
    if e['k'] in ('int', 'char', 'lit') and 'v' in e:
        return e['v']
    raise CheckError('case table entry is not a constant: %s' % e['k'])


def decode(F, g):
    out = []
    es = g['i']['a']
    for n, e in enumerate(es):
        q = []
        for pair in e['a']:
            q += [const(F, x) for x in pair['a']]
        q = (q + [0] * 4)[:4]
        if q[0] == 0:
            if n != len(es) - 1:
                raise CheckError('case table ends early')
            return out
        out.append(tuple(q))
    raise CheckError('case table has no end marker')


def evallin(v, env):
    """value of a linear term over the leaf environment, or None"""
    if isinstance(v, int):
        return v
    t, c = lin(v)
    for k, n in t.items():
        while isinstance(k, tuple) and k[0] == 'cast':
            k = k[2]
        if k in env:
            c += n * env[k]
        elif isinstance(k, tuple) and k[0] == 'lin':
            x = evallin(k, env)
            if x is None:
                return None
            c += n * x
        elif isinstance(k, tuple) and k[0] == 'cond':
            return None
        else:
            return None
    return c


def holds(atom, env):
    if atom[0] not in ('eq', 'lt'):
        return None
    s = atom[2]
    for k, n in atom[1]:
        x = evallin(k, env)
        if x is None:
            return None
        s += n * x
    return s == 0 if atom[0] == 'eq' else s < 0


def pairof(v):
    if isinstance(v, tuple) and v[0] == 'new' and 'pair' in v[1] and len(v[2]) == 2:
        return v[2]
    if isinstance(v, tuple) and v[0] == 'pure' and v[1] == 'make_pair':
        return v[2]
    return None


def inline(g):
    if g['n'] in SKIP or (g.get('clsname') == 'basic_string_token' and g['n'] == 'insert'):
        return False
    return not (g['n'] == 'fold' and len(g['params']) == 4 and 'size<' in g['params'][3]['t'])


def algorithm(ctx, F, f, who, tabs, fs):
    I = interp(ctx, F, f, inline)
    where = '%s:%s (%s)' % (F.rel(f['file']), f['l'], f['n'])
    tab = tabs[f['id']]
    rng = f['params'][0]['n']
    out = ('v', f['params'][2]['n'])
    A, B = ('in', ('f', ('v', rng), 'first')), ('in', ('f', ('v', rng), 'second'))
    bad = [hex(x[0]) for x, y in zip(tab, tab[1:]) if x[1] >= y[0]] + [hex(x[0]) for x in tab if x[1] < x[0]]
    ctx.check(not bad, 'sorted', who, where, 'out of order at %s' % bad[:3])
    # the walk: a place all of whose rounds advance one entry
    G = tables(F, f)[0]
    heads = [h for h in I.hnum.values() if any(p.end == ('back', h) for p in I.paths)]
    walks = {}
    for h in heads:
        backs = [p for p in I.paths if p.end == ('back', h)]
        for P in backs[0].ret:
            fphi = next((('phi', h, c[P]) for b, c in I.classes.items() if I.hnum[b] == h and P in c), None)
            if fphi is not None and all(add(q.ret.get(P, 0), fphi, -1) == 1 for q in backs):
                ent = [e[2].get(P) for p in I.paths for e in p.ev if e[0] == 'loop' and e[1] == h]
                walks.setdefault(h, []).append((P, fphi, ent))
    if len(walks) != 1:
        raise CheckError('no single walk over the case table in ' + f['q'])
    h, cands = next(iter(walks.items()))
    pick = None
    for P, fphi, ent in cands:
        for e in (('d', fphi), ('i', ('g', G['n']), fphi)):
            fst = ('in', ('f', ('f', e, 'from'), 'first'))
            if any(contains(d[0], lambda x: x == fst) for p in I.paths for d in p.decisions()):
                pick = (e, ent)
    if pick is None:
        raise CheckError('the walk in %s does not look at table entries' % f['q'])
    e, ents = pick
    okstart = all(x == 0 or x == ('in', ('g', G['n'])) or x == ('begin', ('g', G['n'])) for x in ents)
    ctx.check(okstart, 'every-entry', who + ':start', where, 'the walk starts at %s' % show(ents[0]))
    leaf = {n: ('in', ('f', ('f', e, a), b)) for n, a, b in (('f', 'from', 'first'), ('g', 'from', 'second'), ('t', 'to', 'first'), ('u', 'to', 'second'))}
    rev = {c > d for a, b, c, d in tab}
    others = [x for x in fs if x['id'] != f['id'] and x['id'] in tabs]
    lost = []
    for base in (0, 0x10400):
        for a, b, fr, g in itertools.product(range(1, 8), repeat=4):
            if a > b or fr > g or min(a, b, fr, g) > 2:
                continue
            for r in sorted(rev):
                a1, b1, f1, g1 = a + base, b + base, fr + base, g + base
                t1 = 0x500 + base
                u1 = t1 + (g - fr) if not r else t1 - (g - fr)
                if r and g == fr:
                    continue
                env = {A: a1, B: b1, leaf['f']: f1, leaf['g']: g1, leaf['t']: t1, leaf['u']: u1}
                lo, hi = max(a1, f1), min(b1, g1)
                want = set(range(lo, hi + 1))
                want = {t1 + (x - f1) if not r else t1 - (x - f1) for x in want}
                took = []
                for p in I.paths:
                    if h not in p.ents:
                        continue
                    ds = [holds(d[0], env) for d in p.decisions()]
                    if any(x is None for x in ds):
                        raise CheckError('condition not understood in %s' % f['q'])
                    if all(x == d[1] for x, d in zip(ds, p.decisions())):
                        took.append(p)
                if len(took) != 1:
                    raise CheckError('%d partitions of %s for one case' % (len(took), f['q']))
                p = took[0]
                k = next(i for i, x in enumerate(p.ev) if x[0] == 'loop' and x[1] == h)
                got = set()
                for ev in p.ev[k:]:
                    if ev[0] == 'call' and ev[2] == out and ev[1]['n'] == 'insert':
                        pr = pairof(ev[3][0])
                        if pr is None:
                            raise CheckError('insertion not understood in ' + f['q'])
                        x, y = evallin(pr[0], env), evallin(pr[1], env)
                        if x is None or y is None:
                            raise CheckError('inserted range not understood in ' + f['q'])
                        got |= set(range(x, y + 1)) if x <= y else {('reversed', x, y)}
                key = '%s:%s%s' % (who, 'desc ' if r else '', order(a, b, fr, g))
                ctx.check(got == want, 'entry', key, where,
                          'range %d-%d, entry %d-%d to %d..%d: adds %s instead of %s' % (a, b, fr, g, t1, u1, sorted(map(str, got)), sorted(want)))
                if p.end[0] == 'ret' and not b < fr:
                    lost.append('range %d-%d, entry %d-%d' % (a, b, fr, g))
    ctx.check(not lost, 'every-entry', who + ':stop', where, 'the search ends at an entry that later ones may follow: ' + '; '.join(lost[:2]))
    # the other table
    for o in others:
        top = max(x[1] for x in tabs[o['id']])
        mine = max(x[1] for x in tab)
        if top > mine:
            continue
        miss = []
        for p in I.paths:
            calls = [x for x in p.ev if x[0] == 'call' and x[1]['n'] == 'fold' and x[1].get('fn') == o['id']]
            good = any(c[3] and c[3][0] in (('in', ('v', rng)), ('addr', ('v', rng))) and ('addr', out) in c[3] for c in calls)
            for a in (1, top - 1, top, 0xd7ff, 0xffff):
                if a > top:
                    continue
                pre = [d for d in p.decisions() if not contains(d[0], lambda x: isinstance(x, tuple) and x and x[0] == 'phi')]
                env = {A: a, B: 0x10ffff}
                if all(holds(x, env) in (None, pol) for x, pol in pre) and not good:
                    miss.append('%X' % a)
        ctx.check(not miss, 'both-tables', who, where, 'ranges starting at %s are not looked up in the other table' % ', '.join(sorted(set(miss))[:3]))


def order(a, b, f, g):
    """order type of four numbers, with 'next to' kept apart"""
    s = sorted(set((a, b, f, g)))
    txt = []
    for i, x in enumerate(s):
        txt.append(''.join(n for n, y in zip('abfg', (a, b, f, g)) if y == x))
        if i + 1 < len(s):
            txt.append('+' if s[i + 1] == x + 1 else '<')
    return ''.join(txt)


def strip(v):
    while isinstance(v, tuple) and v[0] == 'cast':
        v = v[2]
    return v


def onebyte(ctx, F, f, who):
    I = interp(ctx, F, f, inline)
    where = '%s:%s (%s)' % (F.rel(f['file']), f['l'], f['n'])
    rng = f['params'][0]['n']
    out = ('v', f['params'][2]['n'])
    A, B = ('in', ('f', ('v', rng), 'first')), ('in', ('f', ('v', rng), 'second'))
    from loops import Loops
    L = Loops(I)
    good = False
    for h, d in L.desc.items():
        if not d or d['down']:
            continue
        if strip(d['start']) != A or add(strip2(d['bound']), B, -1) != 1:
            continue
        good = True
        for p in L.backs(h):
            k = next(i for i, x in enumerate(p.ev) if x[0] == 'loop' and x[1] == h)
            conv = {}
            for x in p.ev[k:]:
                if x[0] == 'call' and x[1]['n'] in ('toupper', 'tolower') and strip(x[3][0]) == d['phi']:
                    conv[x[4]] = x[1]['n']
            calls = allcalls(p, k, d['phi'], conv)
            ins = []
            for x in p.ev[k:]:
                if x[0] == 'call' and x[2] == out and x[1]['n'] == 'insert':
                    pr = pairof(x[3][0])
                    if pr is None or strip(pr[0]) != strip(pr[1]):
                        good = False
                    else:
                        ins.append(strip(pr[0]))
            for nm in ('toupper', 'tolower'):
                v = [r for r in calls if calls[r] == nm]
                if not v:
                    good = False
                    continue
                same = any(p.facts.query(q[0]) is q[1] for r in v for q in eqs(r, d['phi'], p))
                if not same and not any(r in ins for r in v):
                    good = False
            if any(strip(x) not in calls for x in ins):
                good = False
        # nothing but the exhausted range ends the walk
        for p in I.paths:
            if h in p.ents and p.end[0] == 'ret':
                k = next(i for i, x in enumerate(p.ev) if x[0] == 'loop' and x[1] == h)
                if any(x[0] == 'call' and x[1]['n'] == 'insert' for x in p.ev[k:]):
                    good = False
    ctx.check(good, 'one-byte', who, where, 'not every character of the range is given its upper and lower case counterpart')


def strip2(v):
    t, c = lin(v)
    return mklin({strip(k): n for k, n in t.items()}, c)


def allcalls(p, k, phi, conv):
    """toupper/tolower results of the character the walk stands at, whether they are call results or pure terms"""
    out = dict(conv)

    def look(v):
        if isinstance(v, tuple):
            if v and v[0] == 'pure' and v[1] in ('toupper', 'tolower') and strip(v[2][0]) == phi:
                out[v] = v[1]
            for x in v:
                look(x)
    for x in p.ev[k:]:
        if x[0] == 'dec':
            look(x[1])
        elif x[0] == 'call':
            look(x[3])
    return out


def eqs(r, phi, p):
    """decided atoms that compare r with the character"""
    out = []
    for a, pol in p.decisions():
        if a[0] == 'eq' and a[2] == 0 and len(a[1]) == 2:
            ks = {strip(k) for k, n in a[1]}
            if ks == {r, phi}:
                out.append((a, True))
    return out


def applied(ctx, F, icase):
    fs = []
    for n in ('charset', 'add_char'):
        fs += [f for f in F.fns.values() if f['n'] == n and f.get('clsname') in ('basic_re_tokeniser_helper', 'basic_re_tokeniser') and 'body' in f]
    if not fs:
        raise CheckError('no function adds characters to a token')
    names = {f['n'] for f in fs}
    for f in fs:
        inl = lambda g: inline(g) and g['n'] not in ('negate', 'charset', 'posix', 'charset_shortcut', 'chr') and not (
            g['n'] == 'insert')
        I = interp(ctx, F, f, inl)
        who = short(f['cls']).split('::')[-1] + '::' + f['n'] + '(' + short(f['params'][0]['t']) + ')'
        st = [('v', p['n']) for p in f['params'] if '_state<' in p['t']]
        tok = [('v', p['n']) for p in f['params'] if 'basic_string_token' in p['t']]
        if len(st) != 1 or len(tok) != 1:
            raise CheckError('parameters of %s' % f['q'])
        n = 0
        for p in I.paths:
            if p.end[0] in ('throw', 'unreach'):
                continue
            evs = [(k, e) for k, e in enumerate(p.ev) if e[0] == 'call' and e[2] == tok[0] and e[1]['n'] == 'insert']
            for k, e in evs:
                pr = pairof(e[3][0]) if e[3] else None
                if pr is None:
                    continue
                if all(isinstance(x, int) for x in pr):
                    continue
                n += 1
                loc = e[5]
                flag = flagstate(p, st[0], icase)
                key = '%s:%s' % (who, ' '.join(show(strip(x)) for x in pr))
                folds = [x for x in p.ev[:] if x[0] == 'call' and x[1]['n'] == 'fold' and x[3] and samerange(pairof(x[3][0]), pr)]
                if flag is None:
                    ctx.bad('applied', key, loc, 'added without looking at the ignore-case flag')
                elif flag is False:
                    ctx.check(not folds, 'applied', key, loc, 'counterparts are added although case matters')
                else:
                    good = False
                    for x in folds:
                        for a in x[3]:
                            if isinstance(a, tuple) and a[0] == 'addr' and a[1] == tok[0]:
                                good = True
                            if isinstance(a, tuple) and a[0] == 'addr' and a[1][0] == 'v' and '#' in a[1][1]:
                                hv = ('hv', x[4][1], a[1])
                                j = p.ev.index(x)
                                if any(y[0] == 'call' and y[2] == tok[0] and y[1]['n'] == 'insert' and y[3] and inserted(y[3][0], hv, a[1]) for y in p.ev[j:]):
                                    good = True
                                if emptytest(p, hv):
                                    good = True
                    ctx.check(good, 'applied', key, loc, 'case is ignored here but the counterparts of the added range are not added')
            if f['n'] == 'charset':
                neg = [k for k, e in enumerate(p.ev) if e[0] == 'call' and e[2] == tok[0] and e[1]['n'] == 'negate']
                first = next((pol for a, pol in p.decisions() if a[0] == 'eq' and len(a[1]) == 1 and a[2] in (-94, 94)), None)
                if p.end[0] == 'ret':
                    if first is None:
                        raise CheckError('%s returns without a test for \'^\'' % f['q'])
                    ctx.check(len(neg) == (1 if first else 0), 'negate', who, p.end[2] if len(p.end) > 2 else f['q'],
                              'a bracket expression %s \'^\' is complemented %d times' % ('with' if first else 'without', len(neg)))
                if neg:
                    ctx.check(not [k for k, e in evs if k > neg[0]], 'negate-last', who, p.ev[neg[0]][5], 'characters are added after the complement')
        if not n:
            raise CheckError('%s adds no characters' % f['q'])


def samerange(a, b):
    return a is not None and b is not None and [strip(x) for x in a] == [strip(x) for x in b]


def inserted(v, hv, P):
    return v == hv or v == ('addr', P) or v == ('in', P)


def emptytest(p, hv):
    """the partition knows that the folded set is empty"""
    for a, pol in p.decisions():
        if pol and a[0] == 'eq' and a[2] == 0 and len(a[1]) == 1 and contains(a[1][0][0], lambda x: x == hv or (
                isinstance(x, tuple) and len(x) == 3 and x[0] == 'hv' and x[1] == hv[1] and inside(x[2], hv[2]))):
            return True
    return False


def inside(P, Q):
    while P != Q and isinstance(P, tuple) and P[0] in ('f', 'i'):
        P = P[1]
    return P == Q


def flagstate(p, st, icase):
    for a, pol in p.decisions():
        if a[0] == 'eq' and len(a[1]) == 1:
            t = a[1][0][0]
            if isinstance(t, tuple) and t[0] == 'op' and t[1] == '&' and icase in t[2:]:
                if contains(t, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == 'f' and x[2] == '_flags'):
                    r = -a[2] * a[1][0][1]
                    if r == 0:
                        return not pol
                    if r == icase:
                        return pol
    return None
