"""C29: sets of wide characters are cut into byte sequences without gaining or losing characters."""
import itertools
from common import *
from loops import Loops
from evalx import value, fact, consistent

THIS = ('v', 'this')
TOK = 'basic_string_token'
SAMPLE = (0, 1, 2, 254, 255)


def run(ctx):
    ctx.rule('slice', 'the byte ranges a character range is cut into cover exactly the characters of the range', 5)
    ctx.rule('delegate', 'a range inside one block of 65536 is cut as a 16 bit range, every part below the common top byte', 3)
    ctx.rule('ordered', 'the bounds of a byte range are passed on in order', 4)
    ctx.rule('filed', 'a part joins an earlier one exactly when all but the last byte range are equal, and otherwise becomes a new one', 10)
    ctx.rule('words', 'every part becomes a sequence of its byte ranges, first byte first, and the parts are alternatives', 8)
    ctx.rule('every', 'every range of the set is cut up, into as many bytes as lookup takes steps', 8)
    ctx.rule('column', 'every byte range gets the character set number recorded for it', 3)
    for unit in ('d_core', 'd_u16'):
        F = ctx.facts(unit)
        for f in F.fns.values():
            if 'body' not in f or f.get('clsname') != 'basic_parser' or 'true, true, true' not in f['cls']:
                continue
            n = f['n']
            if n == 'slice_range':
                slices(ctx, F, f)
            elif n == 'insert_range':
                (filed if TOK in f['params'][0]['t'] else ordered)(ctx, F, f)
            elif n == 'push_ranges':
                words(ctx, F, f)
            elif n == 'create_sequence':
                every(ctx, F, f)
            elif n == 'push_range':
                column(ctx, F, f)
    ctx.assume('string_token::insert adds exactly the characters of its argument (C25)', 'equality of tokens compares their ranges (C13)',
               'lookup takes the most significant byte first (C11)', 'parts are numbered and joined as C05 says')


def kind(f):
    return f['cls'].split('sm_traits<')[1].split(',')[0]


def where_(f):
    return f['q'].split('::')[-1] + '@parser.hpp:%d' % f['l']


def analyse(ctx, F, f, keep):
    ctx.analysed(f)
    I = Interp(Lower(F, lambda g: g['n'] not in keep, allcalls=True).lower(f))
    ctx.inlined(F, I.g)
    I.run()
    ctx.count('partitions', len(I.paths))
    return I


def calls(p, name):
    return [e for e in p.ev if e[0] == 'call' and e[1]['n'] == name]


def level(v):
    """(base, j) for a place of the j-th list of an array of lists"""
    if v[0] == 'd':
        if v[1][0] == 'in':
            return v[1][1], 0
        if v[1][0] == 'lin':
            t = dict(v[1][1])
            if len(t) == 1:
                (k, n), = t.items()
                if n == 1 and k[0] == 'in':
                    return k[1], v[1][2]
    if v[0] == 'i' and isinstance(v[2], int):
        return v[1], v[2]
    return None


def bounds(p, v):
    """bounds of the token v"""
    if isinstance(v, tuple) and v[0] == 'new' and TOK in v[1] and len(v[2]) == 2:
        return v[2]
    if isinstance(v, tuple) and v[0] == 'addr':
        v = ('in', v[1])
    P = v[2] if v[0] == 'hv' else v[1] if v[0] == 'in' else None
    es = [e for e in calls(p, 'insert') if e[2] == P]
    if P is not None and len(es) == 1 and es[0][3] and es[0][3][0][0] == 'new' and len(es[0][3][0][2]) == 2:
        return es[0][3][0][2]
    return None


def boxes(p):
    """the byte ranges of every part filed on this path, or None"""
    out = []
    for e in calls(p, 'insert_range'):
        a = e[3][:-1]
        if any(TOK in q for q in e[1].get('pt', ())) or any(isinstance(x, tuple) and x[0] in ('hv', 'new') for x in a):
            b = [bounds(p, x) for x in a]
            if None in b:
                return None
        else:
            b = [(a[i], a[i + 1]) for i in range(0, len(a), 2)]
        out.append(b)
    return out


# ------------------------------------------------------------------ cutting

def slices(ctx, F, f):
    where = where_(f)
    wide = 'true' in f['params'][2]['t']
    n = 3 if wide else 2
    name = '%s/%d' % (kind(f), n)
    R, D = ('v', f['params'][0]['n']), ('v', f['params'][1]['n'])
    I = analyse(ctx, F, f, {'insert_range', 'slice_range', 'insert'})
    L = Loops(I)
    direct, looped = [], []
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        (looped if any(e[0] == 'loop' for e in p.ev) and calls(p, 'slice_range') else direct).append(p)
    for p in direct:
        if p.end[0] != 'ret' or any(e[3][-1] != ('in', D) for e in calls(p, 'insert_range')):
            ctx.bad('slice', name, where, 'parts do not go to the lists the caller passed\n' + showpath(p))
            return
    A, B = ('in', ('f', R, 'first')), ('in', ('f', R, 'second'))
    parts = {id(p): boxes(p) for p in direct}
    if any(b is None or any(len(x) != n for x in b) for b in parts.values()):
        raise CheckError('%s: parts of unknown bounds' % where)
    seen = set()
    deleg = {}
    fail = None
    N = itertools.product(SAMPLE, repeat=n)
    nums = sorted(sum(d << (8 * (n - 1 - i)) for i, d in enumerate(x)) for x in N)
    cases = 0
    for a in nums:
        for b in nums:
            if b < a or fail:
                continue
            env = {A: a, B: b}
            cases += 1
            hit = False
            for p in direct:
                if not consistent(p, env):
                    continue
                hit = True
                seen.add(id(p))
                bs = [[(value(x, env), value(y, env)) for x, y in t] for t in parts[id(p)]]
                w = wrong(bs, a, b)
                if w:
                    fail = (p, '%#x-%#x is cut into %s: %s' % (a, b, bs, w))
            for p in looped:
                if consistent(p, env):
                    hit = True
                    deleg.setdefault(id(p), set()).add((a >> 16) == (b >> 16))
            if not hit:
                fail = (None, '%#x-%#x is not cut at all' % (a, b))
    ctx.count('ranges', cases)
    for p in direct:
        if id(p) in seen:
            ctx.check(fail is None or fail[0] is not p, 'slice', '%s: %s' % (name, [('in' if x else 'out') for x in sorted(p.facts.atoms.values())]), where, fail and fail[1])
    if fail and fail[0] is None:
        ctx.bad('slice', name, where, fail[1])
    if looped:
        delegate(ctx, f, I, L, looped, deleg, name, where, R, D, A, B)


def wrong(bs, a, b):
    """why the byte ranges bs are not the characters a to b, or None"""
    spans_ = []
    total = 0
    for t in bs:
        lo = hi = 0
        n = 1
        for x, y in t:
            if x is None or y is None:
                return 'a bound is not known'
            if x > y:
                return 'a byte range runs backwards'
            lo, hi, n = lo << 8 | x, hi << 8 | y, n * (y - x + 1)
        if lo < a or hi > b:
            return 'characters outside the range'
        spans_.append((t, n))
        total += n
    for (s, n), (t, m) in itertools.combinations(spans_, 2):
        if all(max(x[0], y[0]) <= min(x[1], y[1]) for x, y in zip(s, t)):
            # overlapping parts: count the characters one by one through the top bytes
            return None if union(bs) == {(a, b)} else 'characters missing'
    return None if total == b - a + 1 else 'characters missing'


def union(bs):
    """the characters of byte ranges as a set of (first, last)"""
    r = []
    for t in bs:
        tops = [()]
        k = len(t)
        while k and t[k - 1] == (0, 255):
            k -= 1
        k = max(k, 1)
        for x, y in t[:k - 1]:
            tops = [u + (v,) for u in tops for v in range(x, y + 1)]
        rest = 8 * (len(t) - k)
        for u in tops:
            lo = hi = 0
            for v in u:
                lo = hi = lo << 8 | v
            lo, hi = lo << 8 | t[k - 1][0], hi << 8 | t[k - 1][1]
            r.append((lo << rest, ((hi + 1) << rest) - 1))
    out = []
    for x, y in sorted(r):
        if out and x <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], y)
        else:
            out.append([x, y])
    return {tuple(x) for x in out}


def delegate(ctx, f, I, L, looped, deleg, name, where, R, D, A, B):
    data = None
    for p in looped:
        if id(p) not in deleg:
            continue
        bad = None
        ss = calls(p, 'slice_range')
        if deleg[id(p)] != {True}:
            bad = 'a range over several blocks is cut as a 16 bit range'
        elif len(ss) != 1 or ss[0][3][0] not in (('in', R), ('new', 'std::pair', (A, B))) or 'true' in str(ss[0][3][2]):
            bad = 'not the whole range is cut'
        elif not (ss[0][3][1][0] == 'begin' and fresh(p, ss[0], ss[0][3][1][1])):
            bad = 'the 16 bit parts do not go to an empty list of their own'
        if not bad:
            data = ss[0][3][1][1]
            e = next(e for e in p.ev if e[0] == 'loop')
            h = e[1]
            d = L.desc.get(h)
            ok = bool(d) and not d['down'] and d['start'] in (0, ('begin', ('i', data, 0)), ('begin', ('i', data, 1))) and listsize(d['bound'], d['start'], data)
            if not ok:
                bad = 'not every 16 bit part is taken'
            elif p.end == ('back', h):
                cs = calls(p, 'insert_range')
                if len(cs) != 1 or cs[0][3][-1] != ('in', D):
                    bad = 'a 16 bit part is not filed once'
                else:
                    top = bounds(p, cs[0][3][0])
                    if not top or any(value(x, {A: v << 16, B: v << 16}) != v for x in top for v in SAMPLE):
                        bad = 'the top byte is not the common one'
                    elif [part(L, h, x, data) for x in cs[0][3][1:3]] != [0, 1]:
                        bad = 'the lower bytes of a part are not those of one and the same 16 bit part'
            elif calls(p, 'insert_range'):
                bad = 'more parts than those of the 16 bit range'
        ctx.check(not bad, 'delegate', '%s: %s' % (name, p.end[0]), where, '%s\n%s' % (bad, showpath(p)) if bad else '')


def fresh(p, call, P):
    for e in p.ev:
        if e is call:
            return True
        if e[0] == 'write' and (e[1] == P or e[1][0] == 'i' and e[1][1] == P) and e[2] != ('empty',):
            return False
        if e[0] == 'call' and e[2] is not None and (e[2] == P or e[2][0] == 'i' and e[2][1] == P):
            return False
    return True


def listsize(b, s, data):
    n = add(b, s, -1)
    if not (isinstance(n, tuple) and n[0] == 'size'):
        return False
    v = n[1]
    return v[0] in ('hv', 'in') and v[-1][0] == 'i' and v[-1][1] == data and v[-1][2] in (0, 1)


def part(L, h, v, data):
    """list the token v of round h is taken from, or None"""
    if v[0] == 'addr':
        v = ('in', v[1])
    if v[0] not in ('in', 'hv') or v[-1][0] != 'd':
        return None
    q = v[-1][1]            # the pointer held in the list
    if not (isinstance(q, tuple) and q[0] in ('in', 'hv', 'idx')):
        return None
    if q[0] == 'idx':
        src, i = q[1], q[2]
        P = src[-1]
        if P[0] == 'i' and P[1] == data and i == L.desc[h]['phi']:
            return P[2]
        return None
    P = q[-1]
    ph = L.desc[h]['phi']
    if P[0] == 'i' and P[1][0] == 'i' and P[1][1] == data and P[2] == ph:
        return P[1][2]
    if P[0] == 'd':
        # an iterator of its own, in step with the loop
        ent = next(e for p, k, e in L.entries(h))
        for Q, val in ent.items():
            if L.phi(h, Q) == P[1] and isinstance(val, tuple) and val[0] == 'begin' and val[1][0] == 'i' and val[1][1] == data and \
                    all(add(b.ret.get(Q, 0), P[1], -1) == 1 for b in L.backs(h)):
                return val[1][2]
    return None


# ------------------------------------------------------------------ filing

def ordered(ctx, F, f):
    where = where_(f)
    n = (len(f['params']) - 1) // 2
    D = ('v', f['params'][-1]['n'])
    X = [('in', ('v', q['n'])) for q in f['params'][:-1]]
    I = analyse(ctx, F, f, {'insert_range', 'insert'})
    name = '%s/%d' % (kind(f), n)
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        bs = boxes(p)
        if p.end[0] != 'ret' or bs is None or len(bs) != 1 or len(bs[0]) != n or calls(p, 'insert_range')[0][3][-1] != ('in', D):
            ctx.bad('ordered', name, where, 'the part is not filed once\n' + showpath(p))
            continue
        bad = None
        for t in itertools.product((0, 1, 255), repeat=2 * n):
            env = dict(zip(X, t))
            if consistent(p, env):
                for i, (x, y) in enumerate(bs[0]):
                    if (value(x, env), value(y, env)) != (min(t[2 * i:2 * i + 2]), max(t[2 * i:2 * i + 2])):
                        bad = 'bounds %s are passed on as %s, %s' % (t[2 * i:2 * i + 2], value(x, env), value(y, env))
        ctx.check(not bad, 'ordered', name, where, '%s\n%s' % (bad, showpath(p)) if bad else '')


def entry(v, D):
    """(list, position) of a pointer held in the lists of D, relative to the start of its list"""
    P = v[1] if v[0] in ('in',) else None
    if P is None:
        return None
    if P[0] == 'i':
        l = level(P[1])
        return (l[1], P[2]) if l and l[0] == D else None
    if P[0] == 'd':
        return (None, P[1])
    return None


def position(v, D):
    """(list, index) of a pointer held in the lists of D"""
    e = entry(v, D)
    if e is None:
        return None
    j, i = e
    if j is not None:
        return j, i
    return 0, add(i, ('begin', ('d', ('in', D))), -1)


def filed(ctx, F, f):
    where = where_(f)
    n = len(f['params']) - 1
    name = '%s/%d' % (kind(f), n)
    D = ('v', f['params'][-1]['n'])
    T = [('in', ('v', q['n'])) for q in f['params'][:-1]]
    I = analyse(ctx, F, f, {'insert', 'operator=='})
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        ins = [e for e in calls(p, 'insert') if e[2] is not None and e[2][0] == 'd']
        pushes = [e for e in p.ev if e[0] == 'call' and e[1]['n'] in ('push_back', 'emplace_back')]
        bad = None
        if p.end[0] == 'back':
            if ins or pushes:
                bad = 'a part is filed while an entry is still looked for'
        elif p.end[0] != 'ret':
            bad = 'does not return'
        elif ins:
            if pushes or len(ins) != 1 or len(ins[0][3]) != 1 or ins[0][3][0] != T[-1]:
                bad = 'what joins the entry is not the last byte range'
            else:
                at = position(ins[0][2][1], D)
                if at is None or at[0] != n - 1:
                    bad = 'a part joins something else than the last byte range of an entry'
                else:
                    for j in range(n - 1):
                        if not same(p, T[j], j, at[1], D):
                            bad = 'a part joins an entry although byte range %d may differ' % (j + 1)
        elif len(pushes) != n:
            bad = 'a part is lost' if not pushes else 'a part is not entered in every list'
        else:
            for e in pushes:
                l = level(e[2])
                v = e[3][0]
                if not l or l[0] != D or not (v[0] == 'alloc' and TOK in v[2] and len(v[3]) == 1 and v[3][0] == T[l[1]]):
                    bad = 'list %s gets something else than its byte range' % (l and l[1],)
            if len({level(e[2]) for e in pushes}) != n:
                bad = 'a part is not entered in every list'
        ctx.check(not bad, 'filed', '%s: %s' % (name, p.end[0]), where, '%s\n%s' % (bad, showpath(p)) if bad else '')


def same(p, tok, j, i, D):
    for a, pol in p.facts.atoms.items():
        if pol and a[0] == 'eq' and a[2] == 0 and len(a[1]) == 2:
            vs = [t for t, c in a[1]]
            if tok in vs:
                o = vs[1 - vs.index(tok)]
                if o[0] == 'in' and o[1][0] == 'd' and position(o[1][1], D) == (j, i):
                    return True
    return False


# ------------------------------------------------------------------ words

def words(ctx, F, f):
    where = where_(f)
    n = 3 if 'true' in f['params'][-1]['t'] else 2
    name = '%s/%d' % (kind(f), n)
    D = ('v', f['params'][0]['n'])
    I = analyse(ctx, F, f, {'push_range', 'sequence', 'perform_or'})
    L = Loops(I)
    if not L.desc:
        ctx.bad('words', name, where, 'the parts are not taken one after the other')
        return
    if len(L.desc) != 1:
        raise CheckError('%s: %d loops' % (where, len(L.desc)))
    h, d = next(iter(L.desc.items()))
    if not d or d['down']:
        ctx.bad('words', name, where, 'the parts are not taken one after the other')
        return
    ents = L.entries(h)
    # where the loop starts and how far it goes
    ent = ents[0][2]
    start = d['start']
    if isinstance(start, int):
        first, end = start, d['bound']
        whole = isinstance(end, tuple) and end[0] == 'size' and inlist(end[1], D, n)
    else:
        lst = [l for l in range(n) if isinstance(add(start, ('begin', ('d', add(('in', D), l))), -1), int)]
        first = add(start, ('begin', ('d', add(('in', D), lst[0]))), -1) if lst else None
        size = add(d['bound'], add(start, first, -1), -1) if lst else None
        whole = isinstance(size, tuple) and size[0] == 'size' and inlist(size[1], D, n)
    ctx.check(whole, 'words', name + ': all', where, 'not every part is taken')

    def index(v):
        """(list, round) of a token pointer: ('c', k) or ('r', k) for k behind the round's own part"""
        if v[0] != 'in':
            return None
        P = v[1]
        if P[0] == 'i':
            l = level(P[1])
            if not l or l[0] != D:
                return None
            if isinstance(P[2], int):
                return l[1], ('c', P[2])
            k = add(P[2], d['phi'], -1)
            return (l[1], ('r', k + 0)) if isinstance(k, int) and isinstance(start, int) else None
        if P[0] == 'd':
            for Q in I.classes[L.block[h]]:
                ph = L.phi(h, Q)
                k = add(P[1], ph, -1) if ph else None
                if isinstance(k, int) and all(add(b.ret.get(Q, 0), ph, -1) == 1 for b in L.backs(h)):
                    for l in range(n):
                        o = add(ent.get(Q, 0), ('begin', ('d', add(('in', D), l))), -1)
                        if isinstance(o, int):
                            return l, ('r', k + o - first)
        return None

    def play(evs, stack):
        for e in evs:
            if e[0] != 'call':
                continue
            m = e[1]['n']
            if m == 'push_range':
                stack.append((index(e[3][0]),))
            elif m in ('sequence', 'perform_or'):
                if len(stack) < 2:
                    return None
                r, l = stack.pop(), stack.pop()
                stack.append(l + r if m == 'sequence' and 'or' not in l + r else ('or', l, r))
        return stack

    word = lambda i: tuple((l, i) for l in range(n))
    before = play(ents[0][0].ev[:ents[0][1]], [])
    ok = before == ([word(('c', 0))] if first == 1 else []) and first in (0, 1)
    ctx.check(ok, 'words', name + ': first', where, 'before the other parts: %s' % (before,))
    for p in L.backs(h):
        k = next(i for i, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == h)
        at0 = None
        if first == 0:
            for a, pol in (atom_eq(d['phi'], start), atom_lt(d['phi'], add(start, 1))):
                q = p.facts.query(a)
                at0 = at0 if q is None else q == pol
        acc = [] if at0 else [('acc',)]
        got = play(p.ev[k + 1:], list(acc))
        w = word(('r', 0))
        want = [[w]] if at0 else [[('or', ('acc',), w)], [('or', w, ('acc',))]]
        ok = got in want and (first == 1 or at0 is not None)
        ctx.check(ok, 'words', name + ': each', where, 'a round turns %s into %s\n%s' % (acc, got, showpath(p)) if not ok else '')
    for p in I.paths:
        if p.end[0] == 'ret':
            k = next((i for i, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == h), None)
            ok = k is not None and not [e for e in p.ev[k + 1:] if e[0] == 'call' and e[1]['n'] in ('push_range', 'sequence', 'perform_or')]
            ctx.check(ok, 'words', name + ': end', where, showpath(p) if not ok else '')


def inlist(v, D, n):
    if v[0] not in ('in', 'hv', 'phi'):
        return False
    l = level(v[-1])
    return l is not None and l[0] == D and 0 <= l[1] < n


# ------------------------------------------------------------------ all ranges

def every(ctx, F, f):
    where = where_(f)
    name = kind(f)
    T = ('v', f['params'][0]['n'])
    I = analyse(ctx, F, f, {'slice_range', 'push_ranges'})
    L = Loops(I)
    n = {'char16_t': 2}.get(name, 3)
    hs = [h for h in L.desc if any(calls(p, 'slice_range') for p in L.backs(h))]
    if len(hs) != 1:
        ctx.bad('every', name, where, 'the ranges are not cut one after the other')
        return
    h = hs[0]
    C = L.container(h)
    ok = C is not None and C[0] == 'f' and C[2] == '_ranges' and C[1][0] == 'f' and C[1][2] == '_str' and T in [x for x in flatplaces(C)]
    ctx.check(ok, 'every', name + ': ranges', where, 'not every range of the set is cut (%s)' % (show(C) if C else None))
    data = set()
    for p in L.backs(h):
        k = next(i for i, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == h)
        cs = [e for e in p.ev[k + 1:] if e[0] == 'call' and e[1]['n'] == 'slice_range']
        ok = len(cs) == 1 and L.element(h, cs[0][3][0]) and cs[0][3][1][0] == 'begin' and levels(cs[0]) == n
        ctx.check(ok, 'every', name + ': each', where, 'a range is not cut once, whole, into %d bytes\n%s' % (n, showpath(p)) if not ok else '')
        data.update(e[3][1] for e in cs)
    for p in I.paths:
        if p.end[0] != 'ret':
            continue
        k = next((i for i, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == h), None)
        ps = calls(p, 'push_ranges')
        ok = k is not None and len(ps) == 1 and {ps[0][3][0]} == data and levels(ps[0]) == n and ps[0] in p.ev[k:]
        ctx.check(ok, 'every', name + ': joined', where, 'the parts do not become one tree after all ranges are cut\n' + showpath(p) if not ok else '')
        e = next((e for q, kk, e in L.entries(h)), {})
        P = ps[0][3][0][1] if ok else None
        if P is not None:
            ok = e.get(P) == ('empty',)
            ctx.check(ok, 'every', name + ': own', where, 'the lists of parts are not empty at first')


def levels(e):
    return 3 if 'true' in str(e[3][-1]) else 2


def flatplaces(P):
    while True:
        yield P
        if P[0] in ('f', 'i', 'd', 'in') and isinstance(P[1], tuple):
            P = P[1]
        else:
            return


def column(ctx, F, f):
    where = where_(f)
    T = ('in', ('v', f['params'][0]['n']))
    I = analyse(ctx, F, f, {'lookup'})
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        ls = calls(p, 'lookup')
        ok = p.end[0] == 'ret' and len(ls) == 1 and ls[0][3][0] in (('in', ('d', T)), ('addr', ('d', T)))
        st = I.val(p, ('f', THIS, '_tree_node_stack'))
        ok = ok and st[0] == 'push' and st[2][0] == 'alloc' and 'leaf_node' in st[2][2] and st[2][3][0] == ls[0][4] and st[1][0] in ('in', 'hv')
        ctx.check(ok, 'column', kind(f), where, showpath(p) if not ok else '')
