"""C25: character sets are combined exactly, and stay sorted, disjoint and merged."""
from common import *
from loops import Loops
from evalx import value, fact, consistent, leaves_of

CLS = 'lexertl::basic_string_token<'
THIS = ('v', 'this')
SET = ('f', THIS, '_ranges')


def run(ctx):
    ctx.rule('insert', 'inserting a range leaves ranges before it alone, replaces those it touches by the smallest range holding both and puts it in front of the first behind it', 4)
    ctx.rule('insert-set', 'inserting a set inserts every range of it; a set made of characters holds them', 6)
    ctx.rule('split', 'taking a part out of a range leaves what is before and behind it, and goes on behind it', 4)
    ctx.rule('step', 'of two ranges without a common character the one in front is passed over and nothing else happens', 12)
    ctx.rule('common', 'of two overlapping ranges exactly the common part is taken out (and handed over)', 6)
    ctx.rule('end', 'two sets are compared until one of them is exhausted', 6)
    ctx.rule('negate', 'the complement is every gap, from 0 to the highest character', 4)
    ctx.rule('any', 'a set is "any character" exactly when it is one range from 0 to the highest character', 3)
    ctx.rule('compare', 'sets are compared and exchanged as their ranges are', 8)
    F = ctx.facts('d_core')
    top = {}
    for f in F.fns.values():
        cls = f.get('cls', '')
        if 'body' not in f or not cls.startswith(CLS):
            continue
        k = f.get('kind')
        n = f['n']
        if n == 'insert' and 'pair<' in f['params'][0]['t']:
            insert(ctx, F, f, highest(F, cls))
        elif n == 'insert':
            insertset(ctx, F, f)
        elif n == 'adjust' or (len(f['params']) == 4 and 'pair<' in f['params'][0]['t']):
            adjust(ctx, F, f, highest(F, cls))
        elif n in ('intersect', 'remove'):
            overlap(ctx, F, f, highest(F, cls))
        elif n == 'negate':
            negate(ctx, F, f, highest(F, cls))
        elif n == 'any':
            any_(ctx, F, f, highest(F, cls))
        elif n in ('swap', 'clear', 'empty', 'size'):
            simple(ctx, F, f)
        elif n.startswith('basic_string_token') and f['params'] and bare(f['params'][0]['t']) != bare(cls):
            ctor(ctx, F, f)
    for f in F.fns.values():
        if 'body' in f and f['n'] in ('operator==', 'operator<') and len(f['params']) == 2 and bare(f['params'][0]['t']).startswith(CLS):
            compare(ctx, F, f)
    ctx.assume('a set is sorted, its ranges disjoint and not adjacent when an operation starts (each operation keeps that, and sets start empty)',
               'std::vector::insert and erase behave as specified by the C++ standard')


def sname(cls):
    return short(cls).replace('basic_', '')


def keep(g):
    """operations the obligations are stated about stay calls"""
    if g.get('clsname') != 'basic_string_token':
        return True
    return not (g['n'] == 'insert' or g['n'] == 'adjust' or (len(g['params']) == 4 and 'pair<' in g['params'][0]['t']))


_top = {}


def highest(F, cls):
    if cls not in _top:
        T = cls[len(CLS):].rstrip('>')
        fs = [f for f in F.fns.values() if f['n'] == 'max_val' and 'body' in f and f.get('cls', '') == 'lexertl::basic_char_traits<%s>' % T]
        if not fs:      # never asked for
            _top[cls] = (255, 255)
            return _top[cls]
        if len(fs) != 1:
            raise CheckError('highest character of ' + cls)
        I = Interp(Lower(F, None).lower(fs[0]))
        I.run()
        vs = {value(p.ret, {}) for p in I.paths if p.end[0] == 'ret'}
        if len(vs) != 1 or None in vs:
            raise CheckError('highest character of %s: %s' % (cls, [show(p.ret) for p in I.paths]))
        want = {'char': 255, 'unsigned char': 255, 'char16_t': 0xffff}.get(T, 0x10ffff)
        _top[cls] = (vs.pop(), want)
    return _top[cls]


def dom(M):
    xs = [0, 1, 2, 3, 4, 5, M - 1, M]
    return [(a, b) for a in xs for b in xs if a <= b]


def parts(I, p, v):
    """the two ends of a range value"""
    if isinstance(v, tuple) and v[0] == 'addr':
        v = I.val(p, v[1])
    return I.proj(v, 'f', 'first'), I.proj(v, 'f', 'second')


def ends(v, at, C):
    """terms of v that are the ends of the element at position `at` of container C"""
    def pred(x):
        return x[0] == 'in' and x[1][0] == 'f' and x[1][2] in ('first', 'second') and x[1][1] in (('d', at), ('i', C, at), ('d', ('addr', ('i', C, at))))
    return leaves_of(v, pred)


def env_of(terms, a, b):
    return {t: (a if t[1][2] == 'first' else b) for t in terms}


def everything(p):
    return (p.ret if p.end[0] != 'back' else tuple(p.ret.items()), tuple(p.ev), tuple(p.facts.atoms))


# ------------------------------------------------------------------ insert

def insert(ctx, F, f, M):
    M, want = M
    o = sname(f['cls'])
    where = f['q'] + ':%d' % f['l']
    ctx.check(M == want, 'negate', o + ': highest character', where, 'the highest character is %#x' % M)
    I = interp(ctx, F, f, keep)
    L = Loops(I)
    if len(L.block) != 1:
        raise CheckError('%s::insert: %d loops' % (o, len(L.block)))
    h = next(iter(L.block))
    d = L.desc.get(h)
    P = ('v', f['params'][0]['n'])
    if not d or L.container(h) != SET:
        ctx.bad('insert', o + ': every range is looked at', where, 'the loop is not one walk from the first to the last range')
        return
    at = d['phi']
    pf, ps = L.phi(h, ('f', P, 'first')), L.phi(h, ('f', P, 'second'))
    if pf is None and ps is None and L.phi(h, P):
        pf, ps = [I.proj(L.phi(h, P), 'f', x) for x in ('first', 'second')]
    pf = pf or ('in', ('f', P, 'first'))
    ps = ps or ('in', ('f', P, 'second'))
    # the mark: where the first range to be replaced stands
    END = {d['bound']}
    marks = [Q for Q in I.classes[L.block[h]] if Q != d['place'] and all(ent[Q] in END for p, k, ent in L.entries(h))]
    if len(marks) != 1:
        raise CheckError('%s::insert: mark of the ranges to replace' % o)
    mk = marks[0]
    mp = L.phi(h, mk)
    good = []
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        q = atom_eq(mp, d['bound'])
        un = None if p.facts.query(q[0]) is None else p.facts.query(q[0]) is q[1]
        atend = p.facts.query(atom_eq(at, d['bound'])[0])
        te = ends(everything(p), at, SET)
        if atend is (atom_eq(at, d['bound'])[1]):
            good.append(finish(ctx, I, p, o, where, 'after all ranges', at, mp, mk, pf, ps, un, d))
            continue
        if not te:
            ctx.bad('insert', o + ': a range is passed without looking at it', where, showpath(p))
            continue
        kinds = set()
        wrong = None
        for a, b in dom(M):
            for c, e in dom(M):
                env = env_of(te, a, b)
                env.update({pf: c, ps: e})
                if not consistent(p, env):
                    continue
                if b + 1 < c:
                    kind = 'before'
                elif e + 1 < a:
                    kind = 'behind'
                elif a <= c and e <= b:
                    kind = 'holds'
                else:
                    kind = 'touches'
                kinds.add(kind)
                if p.end[0] == 'back':
                    nf, ns = after(I, p, P)
                    got = (value(nf, env), value(ns, env))
                    hull = (min(a, c), max(b, e))
                    m = p.ret.get(mk, mp)
                    if kind == 'before':
                        ok = got == (c, e) and m == mp
                    elif kind == 'behind':
                        ok = False
                    else:
                        ok = got == hull and ((m == at) if un is True else (m == mp) if un is False else False)
                    if un is None and kind != 'before' and m == at:
                        ok = False
                    if not ok and wrong is None:
                        wrong = 'range [%d,%d], inserting [%d,%d]: goes on with %s, first range to replace: %s' % (a, b, c, e, got, show(m))
                else:
                    if kind in ('before', 'touches') and wrong is None:
                        wrong = 'range [%d,%d], inserting [%d,%d]: stops' % (a, b, c, e)
        if wrong:
            ctx.bad('insert', o + ': round', where, wrong + '\n' + showpath(p))
            continue
        for k in kinds:
            ctx.ok('insert', '%s: %s' % (o, k), where)
        if p.end[0] == 'ret':
            if kinds == {'behind'}:
                finish(ctx, I, p, o, where, 'in front of a range', at, mp, mk, pf, ps, un, d)
            elif kinds == {'holds'}:
                held(ctx, I, p, o, where, un)
            elif kinds:
                raise CheckError('%s::insert: mixed exit %s' % (o, kinds))


def after(I, p, P):
    r = p.ret
    out = []
    for x in ('first', 'second'):
        Q = ('f', P, x)
        out.append(r[Q] if Q in r else I.proj(r[P], 'f', x) if P in r else ('in', Q))
    return out


def mutations(I, p):
    """what happens to the ranges: calls and element writes after the last loop event"""
    k = max([i for i, e in enumerate(p.ev) if e[0] == 'loop'] + [-1])
    out = []
    for e in p.ev[k + 1:]:
        if e[0] == 'call' and e[1]['kind'] == 'mut' and e[2] == SET:
            out.append((e[1]['n'], e[3], e[4]))
        elif e[0] == 'write' and (e[1][0] == 'd' or (e[1][0] == 'i' and e[1][1] == SET) or (e[1][0] == 'f' and e[1][1][0] in ('d', 'i'))):
            out.append(('=', (e[1], e[2]), None))
    return out


def finish(ctx, I, p, o, where, what, at, mp, mk, pf, ps, un, d):
    ms = mutations(I, p)
    if un is None:
        ctx.bad('insert', '%s: %s' % (o, what), where, 'whether ranges are to be replaced is not looked at\n' + showpath(p))
        return
    new = lambda v: parts(I, p, v) == (pf, ps)
    pos = (at, d['bound']) if what == 'after all ranges' else (at,)
    if un:
        ok = len(ms) == 1 and ms[0][0] in ('insert', 'emplace') and ms[0][1][0] in pos and \
            (new(ms[0][1][1]) if len(ms[0][1]) == 2 else tuple(ms[0][1][1:]) == (pf, ps))
        ok = ok and p.ret == ms[0][2]
        ctx.check(ok, 'insert', '%s: %s, nothing touched' % (o, what), where, 'the new range is not put where the search ended (and its place returned)\n' + showpath(p))
        return
    tgt = (('d', mp), ('i', SET, mp))
    ok = False
    if len(ms) == 2 and ms[0][0] == '=' and ms[1][0] == 'erase':
        ok = ms[0][1][0] in tgt and new(ms[0][1][1]) and len(ms[1][1]) == 2 and ms[1][1][0] == add(mp, 1) and ms[1][1][1] in pos
    elif len(ms) == 3 and ms[0][0] == ms[1][0] == '=' and ms[2][0] == 'erase':
        w = {m[1][0][2]: m[1][1] for m in ms[:2] if m[1][0][0] == 'f' and m[1][0][1] in tgt}
        ok = w == {'first': pf, 'second': ps} and len(ms[2][1]) == 2 and ms[2][1][0] == add(mp, 1) and ms[2][1][1] in pos
    elif len(ms) == 2 and ms[0][0] == 'erase' and ms[1][0] in ('insert', 'emplace'):
        ok = len(ms[0][1]) == 2 and ms[0][1][0] == mp and ms[0][1][1] in pos and ms[1][1][0] == ms[0][2] and new(ms[1][1][1])
    ctx.check(ok, 'insert', '%s: %s, ranges touched' % (o, what), where, 'the touched ranges are not replaced by the one range holding them all\n' + showpath(p))


def held(ctx, I, p, o, where, un):
    if un is False:
        return      # cannot happen: a range that touches an earlier one as well is not held by a later one
    ctx.check(not mutations(I, p), 'insert', o + ': range already there', where, 'a range that is already in the set changes it\n' + showpath(p))


def insertset(ctx, F, f):
    o = sname(f['cls'])
    where = f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, keep)
    L = Loops(I)
    P = ('f', ('v', f['params'][0]['n']), '_ranges')
    hs = [h for h in L.block if L.container(h) == P]
    ok = len(L.block) == 1 and len(hs) == 1
    why = 'not one walk over all ranges of the other set'
    if ok:
        h = hs[0]
        for p in I.paths:
            cs = [e for e in p.ev if e[0] == 'call' and e[1]['n'] == 'insert']
            if p.end[0] == 'back':
                if len(cs) != 1 or cs[0][2] not in (THIS,) or not L.element(h, deref(I, p, cs[0][3][0])):
                    ok, why = False, showpath(p)
            elif p.end[0] == 'ret' and cs:
                ok, why = False, showpath(p)
    ctx.check(ok, 'insert-set', o + ': insert', where, why)


def deref(I, p, v):
    return I.val(p, v[1]) if isinstance(v, tuple) and v[0] == 'addr' else v


def ctor(ctx, F, f):
    o = sname(f['cls'])
    where = f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, keep)
    n = 0
    for p in I.paths:
        if p.end[0] != 'ret':
            continue
        n += 1
        cs = [e for e in p.ev if e[0] == 'call' and e[1]['n'] == 'insert']
        ok = len(cs) == 1
        if ok:
            a, b = parts(I, p, cs[0][3][0])
            A, B = ('in', ('v', f['params'][0]['n'])), ('in', ('v', f['params'][-1]['n']))
            for x in (0, 65, 127, 200):
                env = {A: x, B: x + 1 if A != B else x}
                ok = ok and (value(a, env), value(b, env)) == (env[A], env[B])
        ctx.check(ok, 'insert-set', '%s: from %d character(s)' % (o, len(f['params'])), where, showpath(p))


# ------------------------------------------------------------------ adjust, intersect, remove

def adjust(ctx, F, f, M):
    M = M[0]
    o = sname(f['cls'])
    where = f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, keep)
    names = [q['n'] for q in f['params']]
    R = ('v', names[0])
    T = next(('v', q['n']) for q in f['params'] if 'string_token' in q['t'])
    IT, EN = [('v', q['n']) for q in f['params'] if 'iterator' in q['t']]
    C = ('f', T, '_ranges')
    at = ('in', IT)
    seen = set()
    for p in I.paths:
        if p.end[0] != 'ret':
            if p.end[0] != 'unreach':
                ctx.bad('split', o + ': fails', where, showpath(p))
            continue
        te = ends(everything(p), at, C)
        te |= {('in', ('f', ('d', at), 'first')), ('in', ('f', ('d', at), 'second'))}
        rf, rs = ('in', ('f', R, 'first')), ('in', ('f', R, 'second'))
        for a, b in dom(M):
            for c, e in dom(M):
                if not (a <= c and e <= b):
                    continue
                env = env_of(te, a, b)
                env.update({rf: c, rs: e})
                if not consistent(p, env):
                    continue
                kind = ('front ' if a < c else '') + ('back' if e < b else '')
                bad = outcome(I, p, env, (a, b), (c, e), IT, EN, C, T, at)
                if bad:
                    ctx.bad('split', '%s: %s' % (o, kind or 'whole'), where, 'taking [%d,%d] out of [%d,%d]: %s\n%s' % (c, e, a, b, bad, showpath(p)))
                    break
                seen.add(kind or 'whole')
    for k in seen:
        ctx.ok('split', '%s: %s' % (o, k), where)


def outcome(I, p, env, ab, ce, IT, EN, C, T, at):
    (a, b), (c, e) = ab, ce
    cur = [a, b]
    gone, ins = None, None
    valid = True
    for ev in p.ev:
        if ev[0] == 'write' and ev[1] in (('f', ('d', at), 'first'), ('f', ('d', at), 'second'), ('f', ('i', C, at), 'first'), ('f', ('i', C, at), 'second')):
            if not valid:
                return 'writes through an invalid position'
            cur[0 if ev[1][2] == 'first' else 1] = value(ev[2], env)
        elif ev[0] == 'write' and ev[1] == ('d', at):
            cur = [value(x, env) for x in parts(I, p, ev[2])]
        elif ev[0] == 'call' and ev[1]['n'] == 'insert' and ev[2] in (T, C):
            if ins:
                return 'several ranges are inserted'
            if ev[2] == C:
                if ev[3][0] != add(at, 1):
                    return 'the back part is put at the wrong place'
                x = ev[3][1]
            else:
                x = ev[3][0]
                if cur[1] is None or cur[1] >= c:
                    return 'the range is not yet cut when the back part is inserted'
            ins = (tuple(value(y, env) for y in parts(I, p, x)), ev[4])
            valid = False
        elif ev[0] == 'call' and ev[1]['n'] == 'erase' and ev[2] == C:
            if ev[3] != (at,):
                return 'erases another range'
            gone = ev[4]
            valid = False
        elif ev[0] == 'call' and ev[1]['kind'] in ('mut', 'repo') and ev[1]['n'] not in ('begin', 'end'):
            return 'calls ' + ev[1]['n']
    pieces = [] if gone else [tuple(cur)]
    if ins:
        pieces.append(ins[0])
    want = ([(a, c - 1)] if a < c else []) + ([(e + 1, b)] if e < b else [])
    if pieces != want:
        return 'leaves %s, not %s' % (pieces, want)
    it = I.val(p, IT)
    en = I.val(p, EN)
    if ins:
        if it != ins[1]:
            return 'does not go on at the part behind'
    elif gone:
        if it != gone:
            return 'does not go on behind the erased range'
    elif it != at and not (a < c and it == add(at, 1)):
        return 'goes on elsewhere'
    if ins or gone:
        fresh = isinstance(en, tuple) and en[0] == 'lin' and any(k == ('begin', C) for k, n in en[1]) and \
            any(isinstance(k, tuple) and k[0] == 'size' for k, n in en[1])
        # the size must be that of the ranges as they are now
        if not fresh or add(en, ('begin', C), -1) != I.size(I.val(p, C)):
            return 'the end of the set is not determined anew'
    elif en != ('in', EN):
        return 'the end is changed'
    return None


def overlap(ctx, F, f, M):
    M = M[0]
    o = sname(f['cls']) + '::' + f['n']
    where = f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, keep)
    L = Loops(I)
    if len(L.block) != 1:
        raise CheckError('%s: %d loops' % (o, len(L.block)))
    h = next(iter(L.block))
    RHS = ('v', f['params'][0]['n'])
    OUT = ('v', f['params'][1]['n']) if len(f['params']) > 1 else None
    RS = ('f', RHS, '_ranges')
    cl = I.classes[L.block[h]]
    ents = [ent for p, k, ent in L.entries(h)]

    def var(C, which):
        want = ('begin', C)
        for Q in cl:
            if all(e[Q] == want if which == 0 else (e[Q] != want and add(e[Q], want, -1) == ('size', ('in', C))) for e in ents):
                return Q
        return None
    li, ri, le, re_ = var(SET, 0), var(RS, 0), var(SET, 1), var(RS, 1)
    if li is None or ri is None:
        raise CheckError('%s: positions in the two sets' % o)
    lp, rp = L.phi(h, li), L.phi(h, ri)
    lend = L.phi(h, le) if le else None
    rend = L.phi(h, re_) if re_ else add(('begin', RS), ('size', ('in', RS)))
    kinds = set()
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        calls = [e for e in p.ev if e[0] == 'call' and e[1]['kind'] in ('mut', 'repo') and e[1]['n'] not in ('begin', 'end')]
        if p.end[0] == 'ret':
            dl = atom_eq(lp, lend) if lend else None
            dr = atom_eq(rp, rend)
            done = (dl and p.facts.query(dl[0]) is dl[1]) or p.facts.query(dr[0]) is dr[1]
            ctx.check(done and not calls, 'end', o, where, 'stops (or acts) although both sets have ranges left\n' + showpath(p))
            continue
        if p.end[0] != 'back':
            ctx.bad('end', o + ': fails', where, showpath(p))
            continue
        more = lend is None or p.facts.query(atom_eq(lp, lend)[0]) is not None
        if not more or p.facts.query(atom_eq(rp, rend)[0]) is None:
            ctx.bad('end', o, where, 'goes on although one of the sets may be exhausted\n' + showpath(p))
            continue
        tl, tr = ends(everything(p), lp, SET), ends(everything(p), rp, RS)
        mine = set()
        wrong = None
        for a, b in dom(M):
            for c, e in dom(M):
                env = env_of(tl, a, b)
                env.update(env_of(tr, c, e))
                if not consistent(p, env):
                    continue
                if b < c or e < a:
                    kind = 'left in front' if b < c else 'right in front'
                    st = (add(p.ret.get(li, lp), lp, -1), add(p.ret.get(ri, rp), rp, -1))
                    ok = st == ((1, 0) if b < c else (0, 1)) and not calls
                    if not ok and not wrong:
                        wrong = ('step', kind, '[%d,%d] and [%d,%d]: moves on by %s%s' % (a, b, c, e, st, ' and acts' if calls else ''))
                else:
                    kind = 'overlapping'
                    if wrong:
                        continue
                    com = (max(a, c), min(b, e))
                    want = [('adjust', THIS, com, li, le)]
                    if OUT is not None:
                        want += [('adjust', RHS, com, ri, re_), ('insert', OUT, com)]
                    got = []
                    for x in calls:
                        if x[1]['n'] == 'insert':
                            got.append(('insert', x[2], tuple(value(y, env) for y in parts(I, p, x[3][0]))))
                        else:
                            ad = [y[1] if isinstance(y, tuple) and y[0] == 'addr' else None for y in x[3]]
                            got.append(('adjust', ad[1], tuple(value(y, env) for y in parts(I, p, x[3][0])), ad[2], ad[3]))
                    at = {x[3] for x in got if x[0] == 'adjust'}
                    for Q, ph, mine_, other in ((li, lp, b, e), (ri, rp, e, b)):
                        st = add(p.ret.get(Q, ph), ph, -1)
                        if Q not in at and st != 0 and not (st == 1 and mine_ <= other):
                            wrong = ('common', kind, '[%d,%d] and [%d,%d]: a range is passed over before all its common parts are found' % (a, b, c, e))
                        elif Q in at and not (isinstance(p.ret.get(Q), tuple) and p.ret[Q][0] == 'hv'):
                            wrong = ('common', kind, '[%d,%d] and [%d,%d]: does not go on where the rest of the range is' % (a, b, c, e))
                    if sorted(got, key=repr) != sorted(want, key=repr):
                        wrong = ('common', kind, '[%d,%d] and [%d,%d]: does %s, not %s' % (a, b, c, e, got, want))
                mine.add(kind)
        if wrong:
            ctx.bad(wrong[0], '%s: %s' % (o, wrong[1]), where, wrong[2] + '\n' + showpath(p))
        else:
            kinds |= mine
    for k in kinds:
        ctx.ok('common' if k == 'overlapping' else 'step', '%s: %s' % (o, k), where)


# ------------------------------------------------------------------ negate and the rest

def negate(ctx, F, f, M):
    M = M[0]
    o = sname(f['cls'])
    where = f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, keep)
    L = Loops(I)
    hs = [h for h in L.block if (L.container(h) == SET)]
    if len(hs) != 1 or len(L.block) != 1:
        ctx.bad('negate', o + ': every range is looked at', where, 'the loop is not one walk from the first to the last range')
        return
    h = hs[0]
    d = L.desc[h]
    cl = I.classes[L.block[h]]
    q = atom_eq(d['phi'], d['bound'])
    tail = {parts(I, p, e[3][0])[0] for p in I.paths if p.end[0] == 'ret' and p.facts.query(q[0]) is q[1] for e in p.ev if e[0] == 'call' and e[1]['n'] == 'insert'}
    nx = [Q for Q in cl if Q != d['place'] and L.phi(h, Q) in tail]
    tmp = {e[2] for p in I.paths for e in p.ev if e[0] == 'call' and e[1]['n'] == 'insert'}
    if len(nx) != 1 or len(tmp) != 1:
        raise CheckError('%s::negate: where the next gap starts' % o)
    nx, tmp = nx[0], tmp.pop()
    if isinstance(tmp, tuple) and tmp[0] == 'v' and '#' not in tmp[1]:
        raise CheckError('%s::negate: result is built in place' % o)
    TR = ('f', tmp, '_ranges')
    np_ = L.phi(h, nx)
    for p, k, ent in L.entries(h):
        ctx.check(ent[nx] == 0, 'negate', o + ': from 0', where, 'the first gap is looked for from %s' % show(ent[nx]))
        e0 = next((ent[Q] for Q in (TR, tmp) if Q in ent), None)
        ctx.check(e0 == ('empty',), 'negate', o + ': starts with nothing', where, showpath(p))
        break
    seen = set()
    # the gap can only start behind the highest character if a round goes on after a range that ends there
    past = False
    for p in L.backs(h):
        te = ends(everything(p), d['phi'], SET)
        env = {t: M for t in te if t[1][2] == 'second'}
        past = past or consistent(p, env)
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        ins = [e for e in p.ev if e[0] == 'call' and e[1]['n'] == 'insert']
        others = [e for e in p.ev if e[0] == 'call' and e[1]['kind'] in ('mut', 'repo') and e[1]['n'] not in ('insert', 'begin', 'end', 'swap', 'cbegin', 'cend')]
        if others:
            raise CheckError('%s::negate calls %s' % (o, others[0][1]['n']))
        q = atom_eq(d['phi'], d['bound'])
        end = p.facts.query(q[0]) is q[1]
        te = ends(everything(p), d['phi'], SET)
        wrong = None
        for n in (0, 1, 2, 3, M - 2, M - 1, M) + ((M + 1,) if past else ()):
            for a, b in ([(None, None)] if end else dom(M)):
                if not end and n > a:
                    continue
                env = {} if end else env_of(te, a, b)
                env[np_] = n
                if not consistent(p, env):
                    continue
                got = [tuple(value(x, env) for x in parts(I, p, e[3][0])) for e in ins]
                if end:
                    want = [(n, M)] if n <= M else []
                    kind = 'behind the last range' if n <= M else 'nothing left'
                    ok = got == want and p.end[0] == 'ret'
                else:
                    want = [(n, a - 1)] if n < a else []
                    kind = 'gap' if n < a else 'no gap'
                    ok = got == want
                    if p.end[0] == 'back':
                        nn = value(p.ret.get(nx, np_), env)
                        ok = ok and nn == b + 1
                    else:
                        ok = ok and b == M
                        kind += ', highest reached'
                if ok:
                    seen.add(kind)
                elif wrong is None:
                    wrong = 'gap from %s%s: inserts %s' % (n, '' if end else ', next range [%d,%d]' % (a, b), got)
        if wrong is None and p.end[0] == 'ret':
            fin = I.val(p, SET)
            okf = isinstance(fin, tuple) and fin[0] in ('hv', 'phi') and len(fin) == 3 and fin[2] in (TR, tmp)
            if not okf:
                wrong = 'the set becomes %s' % show(fin)
        if wrong:
            ctx.bad('negate', o + ': round', where, wrong + '\n' + showpath(p))
    for k in seen:
        ctx.ok('negate', '%s: %s' % (o, k), where)


def any_(ctx, F, f, M):
    M = M[0]
    o = sname(f['cls'])
    where = f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, keep)
    n = 0
    for p in I.paths:
        if p.end[0] != 'ret':
            continue
        for size in (0, 1, 2):
            for a in (0, 1):
                for b in (M - 1, M, 5):
                    def leaf(x):
                        return x[0] == 'size' or (x[0] == 'in' and x[1][0] == 'f' and x[1][2] in ('first', 'second'))
                    env = {}
                    for t in leaves_of(everything(p), leaf):
                        env[t] = size if t[0] == 'size' else a if t[1][2] == 'first' else b
                    if not consistent(p, env):
                        continue
                    r = value(p.ret, env)
                    want = int(size == 1 and a == 0 and b == M)
                    n += 1
                    if r is None or int(bool(r)) != want:
                        ctx.bad('any', o, where, '%d range(s), the first [%d,%d]: %s\n%s' % (size, a, b, r, showpath(p)))
    ctx.check(n > 0, 'any', o, where, 'nothing decided')


def simple(ctx, F, f):
    o = sname(f['cls']) + '::' + f['n']
    where = f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, keep)
    OLD = ('in', SET)
    for p in I.paths:
        if p.end[0] != 'ret':
            continue
        v = I.val(p, SET)
        sz = atom_eq(('size', OLD), 0)
        if f['n'] == 'swap':
            RS = ('f', ('v', f['params'][0]['n']), '_ranges')
            ok = v == ('in', RS) and I.val(p, RS) == OLD
        elif f['n'] == 'clear':
            ok = v == ('empty',)
        elif f['n'] == 'size':
            ok = v == OLD and p.ret == ('size', OLD)
        else:
            t = I.truth(p.ret) if not isinstance(p.ret, int) else bool(p.ret)
            if not isinstance(t, bool):
                ok = t == sz
            else:
                ok = p.facts.query(sz[0]) is (sz[1] if t else not sz[1])
            ok = ok and v == OLD
        ctx.check(ok, 'compare', o, where, showpath(p))


def compare(ctx, F, f):
    o = sname(bare(f['params'][0]['t'])) + ' ' + f['n']
    where = f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, keep)
    A, B = [('in', ('f', ('v', q['n']), '_ranges')) for q in f['params']]
    for p in I.paths:
        if p.end[0] != 'ret':
            continue
        t = I.truth(p.ret)
        if f['n'] == 'operator==':
            w = atom_eq(A, B)
            ok = t == w or (isinstance(t, bool) and p.facts.query(w[0]) is (w[1] if t else not w[1]))
        else:
            w = atom_lt(A, B)
            ok = t == w or (isinstance(t, bool) and p.facts.query(w[0]) is (w[1] if t else not w[1]))
        ctx.check(ok, 'compare', o, where, showpath(p) + show(p.ret))
