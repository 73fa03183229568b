"""C24: reading a regex never goes beyond its end."""
from common import *
from ai import Facts_ as Known
from c34_rows import flat

OWN = ('basic_re_tokeniser', 'basic_re_tokeniser_helper')
OPAQUE = ('charset', 'posix', 'charset_range', 'escape_sequence', 'add_char')


def pos(v, bases):
    """v as (base, offset), base a position in the regex"""
    t, c = lin(v)
    if len(t) == 1:
        (b, n), = t.items()
        if n == 1 and b in bases:
            return b, c
    return None


class Slack:
    """how far every position is known to be from the end"""
    def __init__(self, ends, start):
        self.ends, self.s, self.start = ends, {}, start
        self.K = Known()
        self.bounds, self.eqs, self.chs = [], [], {}

    def of(self, b):
        r = self.s.get(b)
        return self.start(b) if r is None else r

    def up(self, b, n):
        if n > self.of(b):
            self.s[b] = n
            return True
        return False

    def learn(self, a, pol):
        self.K.assume(a, pol)
        kind, x = parsed(a)
        if kind is None:
            return
        if kind == 'end':
            e = [t for t in x if t in self.ends]
            if len(e) != 1:
                return
            (b,) = [t for t in x if t != e[0]]
            k = x[b]
            if abs(k) != 1 or x[e[0]] != -k or self.start(b) is None:
                return
            self.bounds.append((a[0], pol, b, k, a[2]))
        else:
            for t in x:
                q = self.pos(t[1][1])
                if q:
                    self.chs[t] = q
            if a[0] == 'eq' and pol and len(a[1]) == 2 and a[2] == 0:
                self.eqs.append(dict(a[1]))
        again = True
        while again:
            again = False
            for c in self.bounds:
                again |= self.bound(*c)
            for t, (b, off) in self.chs.items():
                # a character that is not the terminator is not at the end
                if self.of(b) == off and self.nonzero(t):
                    again |= self.up(b, off + 1)

    def bound(self, op, pol, b, n, c):
        # n * (b - end) + c
        if op == 'lt':
            if pol and n == 1:
                return self.up(b, c + 1)        # b + c < end
            if not pol and n == -1:
                return self.up(b, -c)           # b - c <= end
        elif not pol:
            d = c * n                           # b + d != end
            if self.of(b) == d:
                return self.up(b, d + 1)
        return False

    def nonzero(self, t, deep=True):
        q = atom_eq(t, 0)
        if isinstance(q, bool):
            return not q
        k = self.K.query(q[0])
        if k is not None and k != q[1]:
            return True
        if deep:
            for m in self.eqs:
                if t in m:
                    (o,) = [x for x in m if x != t]
                    if m[o] == -m[t] and self.nonzero(uncast_(o), False):
                        return True
        return False

    def pos(self, v):
        t, c = lin(v)
        if len(t) == 1:
            (b, n), = t.items()
            if n == 1 and self.start(b) is not None:
                return b, c
        return None


PARSED = {}


def parsed(a):
    r = PARSED.get(a)
    if r is None:
        r = None, None
        if a[0] in ('eq', 'lt'):
            x = dict(a[1])
            ch = [t for t in flat(a) if isinstance(t, tuple) and len(t) == 2 and t[0] == 'in' and isinstance(t[1], tuple) and t[1][0] == 'd']
            if ch:
                r = 'char', ch
            elif len(x) == 2:
                r = 'end', x
        PARSED[a] = r
    return r


def uncast_(v):
    while isinstance(v, tuple) and v and v[0] == 'cast':
        v = v[2]
    return v


STATE = 're_tokeniser_state'


def run(ctx):
    ctx.rule('read', 'every character is read at a position known to be at most the end (where the terminator is)', 60)
    ctx.rule('move', 'every new position is known to be at most the end', 60)
    ctx.rule('names', 'the names compared with are read up to their terminator only', 20)
    ctx.rule('texts', 'a set given as text is read from behind its bracket to its own end', 6)
    ctx.rule('stack', 'the stack of options is used only when it is known not to be empty', 2)
    ctx.rule('whole', 'a rule is read from its first character to its last', 4)
    for unit in ('d_core',):
        F = ctx.facts(unit)
        tok = [f for f in F.fns.values() if 'body' in f and f.get('clsname') in OWN and stateof(f)]
        opaque = lambda g: STATE not in str(g.get('cls')) and (not stateof(g) or g.get('clsname') in OWN and g['n'] in OPAQUE or g.get('clsname') in OWN and stateof(g) and any('string_token' in q['t'] for q in g['params']))
        us = [Fn(ctx, F, f, opaque) for f in tok if f['n'] == 'next' or opaque(f)]
        key = lambda f: (f['n'], ident(f))
        needs = {key(u.f): 9 for u in us if u.f['n'] not in ('next', 'charset')}
        while any([u.settle(needs, key) for u in us]):
            pass
        for k in needs:
            if needs[k] == 9:       # never called from here
                needs[k] = 0
        while any([u.settle(needs, key) for u in us]):
            pass
        for u in us:
            judge(ctx, u)
            if u.f['n'] == 'escape_sequence':
                contract(ctx, F, u.f, u.o)
        for f in F.fns.values():
            if 'body' in f and f.get('clsname') == 'basic_rules' and f['n'] == 'tokenise':
                whole(ctx, F, f)
    ctx.assume('the texts of the Unicode tables are bracketed sets (C01)', 'what is handed to next() and charset() is at most at its end, with a terminator behind (rule whole, texts)')


def stateof(f):
    for q in f['params']:
        if STATE in q['t']:
            return ('v', q['n'])


class Ends:
    """the end of the regex (never changed)"""
    def __init__(self, E):
        self.E = E

    def __contains__(self, b):
        return isinstance(b, tuple) and bool(b) and b[0] in ('in', 'hv', 'phi') and place(b) == self.E


def place(b):
    if isinstance(b, tuple) and b:
        if b[0] == 'in':
            return b[1]
        if b[0] in ('hv', 'phi'):
            return b[2]


class Fn:
    """one function of the tokeniser with its partitions"""

    def __init__(self, ctx, F, f, opaque):
        self.f, self.S = f, stateof(f)
        self.o = '%s::%s' % (short(f['cls']), f['n'])
        ctx.analysed(f)
        I = self.I = Interp(Lower(F, lambda g: not opaque(g)).lower(f), derefs=True)
        ctx.inlined(F, I.g)
        I.run()
        ctx.count('partitions', len(I.paths))
        S = self.S
        C, E = self.C, self.E = ('f', S, '_curr'), ('f', S, '_end')
        self.ends = Ends(E)
        # local pointers walking along a name or along the regex
        local = {}
        for p in I.paths:
            for e in p.ev:
                if e[0] == 'loop':
                    for P, v in e[2].items():
                        local.setdefault((e[1], P), []).append(v)
        self.walk = set()
        while True:
            n = len(self.walk)
            for (h, P), vs in local.items():
                if P != C and is_local(P) and all(text(v, C, self.walk) for v in vs):
                    self.walk.add(('phi', h, P))
            if len(self.walk) == n:
                break
        self.inv = {}
        self.paths = [p for p in I.paths if p.end[0] != 'unreach']

    def start(self, b):
        if isinstance(b, tuple) and b and b[0] == 'str':
            return len(b[1])
        if isinstance(b, tuple) and b and b[0] == 'phi' and (place(b) == self.C or b in self.walk):
            return self.inv.get(b, None if self.settled else 9)
        if b == ('in', self.C):
            return self.need
        if place(b) == self.C or name(b):
            return 0
        return None

    def at(self, K, v):
        q = K.pos(v)
        return None if q is None else K.of(q[0]) - q[1]

    def steps(self, p):
        """events with what is known before each, and where the state stands"""
        K = Slack(self.ends, self.start)
        cur = ('in', self.C)
        for e in p.ev:
            yield e, K, cur
            if e[0] == 'dec':
                K.learn(e[1], e[2])
            elif e[0] == 'write':
                if e[1] == self.C:
                    cur = e[2]
                elif e[1] == self.S and e[2][0] == 'hv':
                    cur = ('hv', e[2][1], self.C)
            elif e[0] == 'loop' and (self.C in e[2] or self.S in e[2]):
                cur = ('phi', e[1], self.C)
        yield ('end',), K, cur

    def settle(self, needs, key):
        """what is known at every loop head; what is known where other functions are called -> changed?"""
        self.need = needs.get(key(self.f), 0)
        self.inv = {}
        self.settled = False
        while True:
            again = False
            for p in self.paths:
                for e, K, cur in self.steps(p):
                    if e[0] == 'loop':
                        again |= self.lower(e[1], e[2], K)
                    elif e[0] == 'end' and p.end[0] == 'back':
                        again |= self.lower(p.end[1], p.ret, K)
            if not again:
                break
        self.settled = True
        r = False
        for p in self.paths:
            for e, K, cur in self.steps(p):
                if e[0] == 'call' and e[1].get('id') is not None or e[0] == 'call':
                    for k, a in enumerate(e[3]):
                        if a in (('addr', self.S), ('in', self.S)):
                            n = self.at(K, cur)
                            n = 0 if n is None else max(n, 0)
                            g = e[1]['n'], ident(self.f)
                            if g in needs and n < needs[g]:
                                needs[g] = n
                                r = True
        return r

    def lower(self, h, vals, K):
        r = False
        if self.S in vals:
            vals = {**vals, self.C: self.I.proj(vals[self.S], 'f', '_curr')}
        for P, v in vals.items():
            b = ('phi', h, P)
            if P == self.C or b in self.walk:
                n = self.at(K, v)
                n = -1 if n is None else max(n, -1)
                if n < self.inv.get(b, 9):
                    self.inv[b] = n
                    r = True
        return r


def ident(f):
    return f['cls'][f['cls'].find('<'):] + ' ' + next((q['t'] for q in f['params'] if STATE in q['t']), '')


def judge(ctx, u):
    I, o, S, C = u.I, u.o, u.S, u.C
    for p in u.paths:
        for e, K, cur in u.steps(p):
            if e[0] == 'read' and e[1][0] == 'd':
                n = u.at(K, e[1][1])
                if n is not None:
                    r = 'read' if pos_of(K, e[1][1], C) else 'names'
                    ctx.check(n >= 0, r, '%s:%d' % (o, e[3][1]), e[3], 'read of %s, which may be %d beyond the end\n%s' % (show(e[1]), -n, showpath(p)) if n < 0 else '')
                elif C in flat(e[1]):
                    ctx.bad('read', '%s:%d' % (o, e[3][1]), e[3], 'read of %s\n%s' % (show(e[1]), showpath(p)))
            elif e[0] == 'write' and e[1] == C:
                n = u.at(K, e[2])
                ok = n is not None and n >= 0
                ctx.check(ok, 'move', '%s:%d' % (o, e[3][1]), e[3], '' if ok else 'moved to %s, which may be beyond the end\n%s' % (show(e[2]), showpath(p)))
            elif e[0] == 'call' and e[1]['n'] == 'pop' and e[2] == ('f', S, '_flags_stack'):
                ctx.check(filled(K), 'stack', '%s:%d' % (o, e[5][1]), e[5], '' if filled(K) else 'taken from a stack that may be empty\n' + showpath(p))
            elif e[0] == 'pre' and is_local(e[1][2]) and isinstance(e[2], tuple) and "'_paren_count'" in str(e[2]) and "'_curr'" in str(e[2]):
                given(ctx, I, p, e, o)
    for b, n in u.inv.items():
        if n < 0:
            ctx.bad('move' if place(b) == C else 'names', '%s: loop %d' % (o, b[1]), u.f['q'], 'position %s may be beyond the end' % show(b))


def text(v, C, walk_):
    t, c = lin(v)
    if len(t) != 1:
        return False
    (b, n), = t.items()
    return n == 1 and (b[0] == 'str' or place(b) == C or b in walk_ or name(b))


def name(b):
    return isinstance(b, tuple) and len(b) == 2 and b[0] == 'in' and isinstance(b[1], tuple) and b[1][0] == 'f' and b[1][2] == '_name'


def pos_of(K, v, C):
    q = K.pos(v)
    return q and place(q[0]) == C


def filled(K):
    for a in K.K.atoms:
        for t in flat(a):
            if isinstance(t, tuple) and len(t) == 2 and t[0] == 'size' and '_flags_stack' in str(t):
                q = atom_eq(t, 0)
                if K.K.query(q[0]) is (not q[1]):
                    return True
    return False


def given(ctx, I, p, e, o):
    """a state made for a set given as text"""
    c, n = I.proj(e[2], 'f', '_curr'), I.proj(e[2], 'f', '_end')
    t = [x for x, k in lin(c)[0].items() if k == 1]
    ok = len(t) == 1 and add(c, t[0], -1) == 1
    if ok:
        s, d = t[0], add(n, t[0], -1)
        if s[0] == 'str':
            ok = d == len(s[1]) or d == ('pure', 'strlen', (s,))
        else:
            ok = d == ('pure', 'strlen', (s,))
            for x in p.ev:
                if x[0] == 'call' and x[1]['n'] == 'escape_sequence' and x[4] == s and len(x[3]) == 3:
                    v = x[3][2]
                    ok = ok or isinstance(d, tuple) and d[0] == 'hv' and v == ('addr', d[2])
    ctx.check(ok, 'texts', o, o, 'a set is read from %s to %s\n%s' % (show(c), show(n), showpath(p)))


def contract(ctx, F, f, o):
    I = interp(ctx, F, f, lambda g: g['n'] != 'chr')
    L = ('v', f['params'][2]['n'])
    for p in I.paths:
        if p.end[0] != 'ret' or p.ret == 0:
            continue
        n = I.val(p, L)
        q = atom_eq(p.ret, 0)
        null = not isinstance(q, bool) and p.facts.query(q[0]) is q[1]
        ok = null or n == ('pure', 'strlen', (p.ret,)) or p.ret[0] == 'str' and n == len(p.ret[1])
        if p.ret[0] == 'str':
            ok = ok and p.ret[1][:1] == (91,) and p.ret[1][-1:] == (93,)
        ctx.check(ok, 'texts', o + ': answer', f['q'], 'the text %s is given with length %s' % (show(p.ret), show(n)))


def whole(ctx, F, f):
    o = '%s::%s' % (short(f['cls']), f['n'])
    I = interp(ctx, F, f, lambda g: g['n'] in ('basic_re_tokeniser_state',) or g.get('mk') == 'ctor' and STATE in str(g.get('cls')))
    texts = [('v', q['n']) for q in f['params'] if 'basic_string<' in q['t'] or 'std::string' in q['t'] or 'std::wstring' in q['t'] or 'std::u' in q['t']]
    n = 0
    for p in I.paths:
        for e in p.ev:
            if e[0] == 'loop':
                states = [(P[1], v, e[2].get(('f', P[1], '_end'))) for P, v in e[2].items() if P[0] == 'f' and P[2] == '_curr']
            elif e[0] == 'pre' and isinstance(e[2], tuple) and is_local(e[1][2]) and "'_paren_count'" in str(e[2]):
                states = [(e[1][2], I.proj(e[2], 'f', '_curr'), I.proj(e[2], 'f', '_end'))]
            else:
                continue
            for P, v, d in states:
                if place(v) == ('f', P, '_curr'):
                    continue        # further on
                ok = any(v == ('begin', R) and d is not None and add(d, v, -1) == ('size', ('in', R)) for R in texts)
                ctx.check(ok, 'whole', o, f['q'] + ':%d' % f['l'], 'read from %s to %s' % (show(v), show(d)))
                n += 1
    ctx.check(n > 0, 'whole', o + ': read', f['q'], 'the regex is not read')
