"""C03: every escape, shortcut, POSIX name and bracket item of a regex stands for the documented characters."""
from common import *
from facts import walk as visit
from evalx import value, consistent
from strmatch import StepLoops, matched, literal
from loops import Loops
from record_model import truth
import charset_text as T

ERROR = 'lexertl::runtime_error'
HELPER = 'basic_re_tokeniser_helper'
SIMPLE = {97: 7, 98: 8, 101: 27, 102: 12, 110: 10, 114: 13, 116: 9, 118: 11}
DIGITS, BLANKS = T.bits(48, 57), sum(1 << c for c in (9, 10, 11, 12, 13, 32))
WORD = DIGITS | T.bits(65, 90) | T.bits(97, 122) | 1 << 95
SHORT = {100: (DIGITS, False), 68: (DIGITS, True), 115: (BLANKS, False), 83: (BLANKS, True), 119: (WORD, False), 87: (WORD, True)}
DECODE = {'octal': 'decode_octal', 'control': 'decode_control_char', 'hex': 'decode_hex'}
LEAVE = {'error', 'unexpected_end', 'narrow'}
MAX = {'char': 0xff, 'unsigned char': 0xff, 'wchar_t': 0x10ffff, 'char32_t': 0x10ffff, 'char16_t': 0xffff}
BITS = {'char': 8, 'unsigned char': 8, 'wchar_t': 32, 'char32_t': 32, 'char16_t': 16}
WORDS = 1 << 64


def run(ctx):
    ctx.rule('escape', 'after \\ every character stands for the documented one: a b e f n r t v, octal, c, x, and otherwise itself', 300)
    ctx.rule('shortcut', '\\d \\D \\s \\S \\w \\W stand for exactly the documented characters', 30)
    ctx.rule('used', 'the text of a shortcut is read from behind its [ to its end, with the flags and locale of the regex', 8)
    ctx.rule('control', '\\c takes letters to 1-26 and @ to 0, and refuses everything else', 100)
    ctx.rule('octal', 'an octal escape reads up to three octal digits, no further, has their value, and is refused exactly if that is too big', 20)
    ctx.rule('hex', 'a hexadecimal escape reads all hexadecimal digits that follow, has their value, and is refused exactly if that is too big', 20)
    ctx.rule('posix-name', 'exactly the twelve POSIX names are accepted, each between [: or [:^ and :]', 150)
    ctx.rule('posix-set', 'every POSIX name stands for exactly its characters, the others if [:^ is used', 150)
    ctx.rule('items', 'a bracket expression adds each character, escape, POSIX name and range in it, from the first character to the closing ]', 40)
    ctx.rule('ranges', 'a range adds everything from its first to its last character, and is refused exactly if it has no such characters or no such ends', 20)
    ctx.assume('the ctype facet classifies characters as the locale says; glibc ctype masks')
    F = ctx.facts('d_core')
    fs = [f for f in F.fns.values() if 'body' in f and HELPER + '<' in f.get('cls', '')]
    n = 0
    for f in fs:
        if f['n'] == 'escape_sequence':
            escape(ctx, F, f)
            n += 1
        elif f['n'] == DECODE['control']:
            control(ctx, F, f)
        elif f['n'] == DECODE['octal']:
            Number(ctx, F, f, 'octal', 8, 3).judge()
        elif f['n'] == DECODE['hex']:
            Number(ctx, F, f, 'hex', 16, None).judge()
        elif f['n'] == 'posix':
            posix(ctx, F, f)
        elif f['n'] == 'charset':
            items(ctx, F, f)
        elif f['n'] == 'charset_range':
            range_(ctx, F, f)
    if not n:
        raise CheckError('escape_sequence not found')
    for f in F.fns.values():
        if 'body' in f and 'basic_re_tokeniser<' in f.get('cls', '') and f['n'] == 'escape':
            used(ctx, F, f)


# ---- common --------------------------------------------------------------------------------------------------------------------------------------

def targs(f):
    """character type of the rules and of the state machine"""
    return [bare(x.strip()) for x in f['cls'].split('<', 1)[1].split(',')[:2]]


def stateparam(f):
    q = next((q for q in f['params'] if 're_tokeniser_state<' in q['t']), None)
    if q is None:
        raise CheckError('no regex position in ' + f['q'])
    return q['n'], bare(q['t'].split('re_tokeniser_state<')[1].split(',')[0].strip())


def who(f):
    try:
        return short(f['cls']) + (' (own text)' if stateparam(f)[1] != targs(f)[0] else '')
    except CheckError:
        return short(f['cls'])


def at(f):
    return f['q'] + ':%d' % f['l']


def noted(ps):
    """constants the partitions compare characters with, and their neighbours"""
    out = set()
    for p in ps:
        for a in p.facts.atoms:
            if a[0] in ('eq', 'lt') and len(a[1]) == 1 and abs(a[1][0][1]) == 1:
                c = -a[2] * a[1][0][1]
                out |= {c - 1, c, c + 1}
    return out


def codes(t, ps=()):
    """characters tried for a type: all of them for char, otherwise ASCII and some beyond, and those the partitions compare with"""
    if t == 'char':
        return range(-128, 128)
    if t == 'unsigned char':
        return range(256)
    most = 0xffff if t == 'char16_t' else T.TOP
    return sorted({c for c in set(range(128)) | {128, 160, 255, 256, 0x3000, 0xffff, 0x10000, 0x10ffff} | noted(ps) if 0 <= c <= most})


def leaf(v):
    return ('in', ('d', v))


def look(ctx, F, f, keep, **kw):
    ctx.analysed(f)
    own = lambda g: g['n'] not in keep
    I = Interp(Lower(F, own, allcalls=True).lower(f), unroll=-1, **kw)
    ctx.inlined(F, I.g)
    I.run()
    ctx.count('partitions', len(I.paths))
    return I


def live(I):
    return [p for p in I.paths if p.end[0] != 'unreach']


def named(p, n):
    return [e for e in p.ev if e[0] == 'call' and e[1]['n'] == n]


def uncast(v):
    while isinstance(v, tuple) and v[0] == 'cast':
        v = v[2]
    return v


def agree(a, b, t):
    return a is not None and (a - b) % (1 << BITS[t]) == 0


def top(f):
    return min(MAX[targs(f)[1]], T.TOP)


# ---- escapes -------------------------------------------------------------------------------------------------------------------------------------

def escape(ctx, F, f):
    o, where = who(f), at(f)
    S, t = stateparam(f)
    out = next(q for q in f['params'] if bare(q['t'].split('&')[0].strip()) == targs(f)[1] and '&' in q['t'])['n']
    size = next(q for q in f['params'] if 'long' in q['t'] and '&' in q['t'])['n']
    I = look(ctx, F, f, LEAVE | set(DECODE.values()) | {'unicode_escape'})
    curr, end = ('in', ('f', ('v', S), '_curr')), ('in', ('f', ('v', S), '_end'))
    L = leaf(curr)
    for p in live(I):
        if p.end[0] == 'throw' and truth(p, atom_lt(curr, end)) is not False:
            ctx.bad('escape', o + ':refused', where, 'an escape is refused')
    ps = [p for p in live(I) if p.end[0] != 'throw']
    for c in codes(t, live(I)):
        qs = [p for p in ps if consistent(p, {L: c})]
        u = c & 0xff if t == 'char' else c
        if not qs:
            ctx.bad('escape', o + ':' + nm(u), where, 'no way on for \\%s' % nm(u))
        for p in qs:
            escaped(ctx, I, p, f, o, where, S, out, size, curr, L, c, u)


def nm(c):
    return chr(c) if 32 < c < 127 else '#%X' % (c & 0xffffffff)


def escaped(ctx, I, p, f, o, where, S, out, size, curr, L, c, u):
    ctype = targs(f)[1]
    calls = [e for e in p.ev if e[0] == 'call' and e[1]['n'] in set(DECODE.values()) | {'unicode_escape'}]
    moved = add(I.val(p, ('f', ('v', S), '_curr')), curr, -1)
    if u in SHORT:
        l = literal(p.ret)
        if not ctx.check(l is not None and l[1] == 0 and not calls and moved == 1, 'shortcut', o + ':' + nm(u), where,
                         '\\%s gives %s' % (nm(u), show(p.ret)[:80])):
            return
        n = I.val(p, ('v', size))
        good = n == len(l[0]) or isinstance(n, tuple) and n[0] == 'pure' and n[1] == 'strlen' and n[2] == (p.ret,)
        m, neg = SHORT[u]
        for hi in (0xff, top(f)):
            full = T.bits(0, hi)
            got = T.parse(l[0], None, hi)
            want = full & ~m if neg else m
            good = good and got == want
        ctx.check(good, 'shortcut', o + ':' + nm(u) + ':set', where, '\\%s is read as %s' % (nm(u), ''.join(map(chr, l[0]))))
        return
    if u == 112:
        if calls and calls[0][1]['n'] == 'unicode_escape':
            if truth(p, atom_eq(calls[0][4], 0)) is not True:
                n = I.val(p, ('v', size))
                ctx.check(len(calls) == 1 and p.ret == calls[0][4] and n == ('pure', 'strlen', (p.ret,)), 'shortcut', o + ':p', where,
                          '\\p gives %s of length %s' % (show(p.ret)[:60], show(n)[:60]))
        else:
            ctx.bad('shortcut', o + ':p', where, '\\p is not looked up')
        return
    kind = 'octal' if 48 <= u <= 55 else 'control' if u == 99 else 'hex' if u == 120 else None
    v = I.val(p, ('v', out))
    if kind:
        ok = len(calls) == 1 and calls[0][1]['n'] == DECODE[kind] and calls[0][3] == (('addr', ('v', S)),) and uncast(v) == calls[0][4] and p.ret == 0
        if ok:
            before = [e for e in p.ev if e[0] == 'write' and e[1] == ('f', ('v', S), '_curr')]
            ok = not before
        ctx.check(ok, 'escape', o + ':' + nm(u), where, '\\%s gives %s' % (nm(u), show(v)[:80]))
        return
    if c < 0 and BITS[ctype] > 8:
        return
    ctx.check(not calls and p.ret == 0 and moved == 1 and agree(value(v, {L: c}), SIMPLE.get(u, c), ctype), 'escape', o + ':' + nm(u), where,
              '\\%s gives %s and goes on by %s' % (nm(u), show(value(v, {L: c}))[:60], show(moved)[:40]))


def changes(p, e):
    """{place: (value after, value before)} of what the call e was handed to change"""
    out = {}
    i = next(i for i, x in enumerate(p.ev) if x is e)
    for x in p.ev[i + 1:]:
        if x[0] == 'call':
            break
        if x[0] == 'pre':
            out.setdefault(x[1][2], (x[1], x[2]))
    return out


def textstate(I, p, e, k=0):
    """the position object handed to call e as argument k: its value before the call"""
    A = e[3][k]
    if not (isinstance(A, tuple) and A[0] == 'addr'):
        return None
    return changes(p, e).get(A[1], (None, None))[1]


def readfrom(I, v):
    """(curr, end, flags, locale, start) of a position object value"""
    return [I.proj(v, 'f', n) for n in ('_curr', '_end', '_flags', '_locale', '_start')]


def used(ctx, F, f):
    o, where = short(f['cls']), at(f)
    S = stateparam(f)[0]
    I = look(ctx, F, f, LEAVE | {'escape_sequence', 'charset', 'add_char'})
    for p in live(I):
        if p.end[0] == 'throw':
            continue
        e = named(p, 'escape_sequence')
        if not ctx.check(len(e) == 1 and e[0][3][0] == ('addr', ('v', S)), 'used', o + ':asked', where, '%d escapes are read' % len(e)):
            continue
        e = e[0]
        isset = truth(p, atom_eq(e[4], 0))
        cs, ad = named(p, 'charset'), named(p, 'add_char')
        token = ('addr', ('v', next(q['n'] for q in f['params'] if 'string_token<' in q['t'])))
        if isset is False:
            ok = len(cs) == 1 and not ad and cs[0][3][1] == token and text_of(I, p, cs[0], e, S)
            ctx.check(ok, 'used', o + ':set', where, 'the text of a shortcut is not read whole into the token')
        elif isset is True:
            ok = len(ad) == 1 and not cs and isinstance(uncast(ad[0][3][0]), tuple) and uncast(ad[0][3][0])[0] == 'hv' and ad[0][3][2] == token
            ctx.check(ok, 'used', o + ':char', where, 'the character of an escape is not added to the token')
        else:
            ctx.bad('used', o + ':kind', where, 'does not tell a set from a character')


def text_of(I, p, call, e, S):
    """call reads the text the escape e gave from behind its first character to its end"""
    v = textstate(I, p, call)
    if v is None:
        return False
    c, end, flags, loc, start = readfrom(I, v)
    size = [x for x in e[3] if isinstance(x, tuple) and x[0] == 'addr'][-1][1]
    n = add(end, e[4], -1)
    s = strip_field
    return add(c, e[4], -1) == 1 and add(start, e[4], -1) == 1 and isinstance(n, tuple) and n[0] == 'hv' and n[2] == size and \
        s(flags) == ('_flags', S) and s(loc) == ('_locale', S)


def strip_field(v):
    """(field, parameter) if v is a field of a parameter, possibly after calls that had it"""
    if isinstance(v, tuple) and v[0] in ('in', 'hv', 'phi') and v[-1][0] == 'f' and v[-1][1][0] == 'v':
        return v[-1][2], v[-1][1][1]
    if isinstance(v, tuple) and v[0] == 'fld':
        w = v[1]
        while isinstance(w, tuple) and w[0] == 'upd':
            w = w[1]
        if isinstance(w, tuple) and w[0] in ('in', 'hv', 'phi') and w[-1][0] == 'v':
            return v[2], w[-1][1]
    return None


def control(ctx, F, f):
    o, where = who(f), at(f)
    S, t = stateparam(f)
    I = look(ctx, F, f, LEAVE)
    curr = ('in', ('f', ('v', S), '_curr'))
    end = ('in', ('f', ('v', S), '_end'))
    L = leaf(add(curr, 1))
    for p in live(I):
        if truth(p, atom_lt(add(curr, 1), end)) is False:
            ctx.check(p.end[0] == 'throw', 'control', o + ':end', where, '\\c at the end is accepted')
    for c in codes(t, live(I)):
        ps = [p for p in live(I) if consistent(p, {L: c}) and truth(p, atom_lt(add(curr, 1), end)) is not False]
        want = c - 96 if 97 <= c <= 122 else c - 64 if 65 <= c <= 90 else 0 if c == 64 else None
        for p in ps:
            if want is None:
                ctx.check(p.end[:2] == ('throw', ERROR), 'control', o + ':' + nm(c), where, '\\c%s is accepted' % nm(c))
            else:
                moved = add(I.val(p, ('f', ('v', S), '_curr')), curr, -1)
                ok = p.end[0] == 'ret' and value(p.ret, {L: c}) == want and moved == 2
                ctx.check(ok, 'control', o + ':' + nm(c), where, '\\c%s gives %s' % (nm(c), show(p.ret)[:60] if p.end[0] == 'ret' else p.end[:2]))
        if not ps:
            ctx.bad('control', o + ':' + nm(c), where, 'no way on for \\c%s' % nm(c))


# ---- numbers -------------------------------------------------------------------------------------------------------------------------------------

def digit(c, base):
    d = c - 48 if 48 <= c <= 57 else c - 87 if 97 <= c <= 102 else c - 55 if 65 <= c <= 70 else None
    return d if d is not None and d < base else None


def factor(v, ph):
    """what ph is multiplied by in a sum"""
    n = 0
    for k, c in lin(v)[0].items():
        if k == ph:
            n += c
        elif isinstance(k, tuple) and k[0] == 'op' and k[1] == '<<' and isinstance(k[3], int):
            n += c * (factor(uncast(k[2]), ph) << k[3])
        elif isinstance(k, tuple) and k[0] == 'cast':
            n += c * factor(uncast(k), ph)
    return n


class Reader:
    """a loop that reads a number digit by digit: position, value so far, and where the digit stands that a round adds"""

    def __init__(self, I, h, S, base, known=None):
        self.I, self.h, self.base = I, h, base
        self.L = Loops(I)
        P = ('f', ('v', S), '_curr')
        cl = I.classes[self.L.block[h]]
        whole = ('v', S)
        self.backs = self.L.backs(h)
        self.pos = self.L.phi(h, P) or (I.proj(self.L.phi(h, whole), 'f', '_curr') if self.L.phi(h, whole) else None)
        self.P = P
        if self.pos is None or not self.backs:
            raise CheckError('a number is read by a loop that does not move')
        self.val = known
        self.vals = []
        self.chars = {}
        self.steps = {}
        for Q in cl:
            ph = self.L.phi(h, Q)
            bs = [p.ret.get(Q) for p in self.backs]
            if None in bs or ph == self.pos:
                continue
            if any(factor(uncast(b), ph) == base for b in bs):
                self.vals.append((Q, ph))
                continue
            es = [e[2][Q] for e in self.entries()]
            offs = {self.offset(b, self.back(p)) for p, b in zip(self.backs, bs)} | {self.offset(x, self.entry(e)) for x, e in zip(es, self.entries())}
            if len(offs) == 1 and None not in offs:
                self.chars[ph] = offs.pop()
                continue
            ds = {add(b, ph, -1) for b in bs}
            if len(ds) == 1 and isinstance(next(iter(ds)), int) and len(set(es)) == 1 and isinstance(es[0], int):
                self.steps[ph] = (es[0], next(iter(ds)))

    def entries(self):
        seen, out = set(), []
        for p in self.I.paths:
            for e in p.ev:
                if e[0] == 'loop' and e[1] == self.h and repr(e[2]) not in seen:
                    seen.add(repr(e[2]))
                    out.append(e)
        return out

    def entry(self, e):
        v = e[2].get(self.P)
        if v is None:
            v = next((self.I.proj(x, 'f', '_curr') for Q, x in e[2].items() if Q == self.P[1]), None)
        return v

    def back(self, p):
        v = p.ret.get(self.P)
        return v if v is not None else self.I.proj(p.ret[self.P[1]], 'f', '_curr')

    def offset(self, v, base):
        """v is the character at base + offset"""
        v = uncast(v)
        if isinstance(v, tuple) and v[0] == 'in' and v[1][0] == 'd' and base is not None:
            d = add(v[1][1], base, -1)
            return d if isinstance(d, int) else None
        return None

    def atoffset(self, x):
        """offset from the position of the round of the character x (a leaf)"""
        x = uncast(x)
        if x in self.chars:
            return self.chars[x]
        return self.offset(x, self.pos)


def char_leaves(p, R):
    out = {}
    for a in list(p.facts.atoms):
        for k, _ in a[1]:
            for x in parts_(k):
                o = R.atoffset(x) if isinstance(x, tuple) and x[0] in ('in', 'phi', 'hv') else None
                if o is not None:
                    out.setdefault(o, set()).add(x)
    return out


def parts_(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from parts_(x)


class Number:
    """an escape that is a number"""

    def __init__(self, ctx, F, f, rule, base, most):
        self.ctx, self.f, self.rule, self.base, self.most = ctx, f, rule, base, most
        self.o, self.where = who(f), at(f)
        self.S, self.t = stateparam(f)
        self.I = look(ctx, F, f, LEAVE)
        self.curr = ('in', ('f', ('v', self.S), '_curr'))
        self.end = ('in', ('f', ('v', self.S), '_end'))
        self.max = top(f)

    def bad(self, what, text):
        self.ctx.bad(self.rule, self.o + ':' + what, self.where, text)

    def check(self, ok, what, text):
        return self.ctx.check(ok, self.rule, self.o + ':' + what, self.where, text)

    def digits(self):
        return [c for c in range(128) if digit(c, self.base) is not None]

    def judge(self):
        I = self.I
        hs = [h for h in Loops(I).desc]
        Rs = []
        for h in hs:
            R = Reader(I, h, self.S, self.base)
            if R.vals:
                Rs.append(R)
        if len(Rs) != 1 or len(Rs[0].vals) != 1:
            raise CheckError('%d loops read the number in %s' % (len(Rs), self.f['q']))
        R = self.R = Rs[0]
        self.Q, self.val = R.vals[0]
        first = 0 if self.rule == 'octal' else 1        # the x is still to be skipped
        for e in R.entries():
            v = e[2][self.Q]
            self.check(v == 0, 'from', 'starts from %s' % show(v))
        inside = [p for p in live(I) if any(e[0] == 'loop' and e[1] == R.h for e in p.ev)]
        for p in live(I):
            if p not in inside:
                self.before(p, first)
        for p in inside:
            self.round(p, first)

    def before(self, p, first):
        """never reaches a digit: refused because there is none"""
        L = leaf(add(self.curr, first))
        cs = [c for c in codes(self.t, [p]) if digit(c, self.base) is not None and consistent(p, {L: c})]
        gone = truth(p, atom_lt(add(self.curr, first), self.end)) is False
        self.check(p.end[:2] == ('throw', ERROR) and (gone or not cs), 'none', 'refused although a digit follows' if cs else 'no digit, no error')

    def round(self, p, first):
        R = self.R
        ev = next(e for e in p.ev if e[0] == 'loop' and e[1] == R.h)
        start = add(R.entry(ev), self.curr, -1)
        if not isinstance(start, int):
            return self.bad('start', 'starts at %s' % show(R.entry(ev)))
        if p.end[0] == 'back':
            after, v = R.back(p), p.ret[self.Q]
        else:
            after, v = self.I.val(p, R.P), p.ret if p.end[0] == 'ret' else None
        moved = add(after, R.pos, -1)
        if not isinstance(moved, int):
            return self.bad('moves', 'goes on to %s' % show(after))
        # which characters the round knows, and which of them it adds
        known = char_leaves(p, R)
        pend = first - start                             # offset of the digit this round adds
        envs = self.envs(p, known, pend)
        n = 0
        for env, rounds, had, c, nxt in envs:
            n += 1
            d = digit(c, self.base)
            true = had * self.base + d
            more = nxt is not None and digit(nxt, self.base) is not None and (self.most is None or rounds + 1 < self.most)
            if p.end[0] == 'back':
                got = value(v, env)
                ok = got is not None and (got % WORDS == true or true > self.max and got % WORDS > self.max)
                if not self.check(ok, 'value', 'a digit %d after %d makes %s' % (d, had, got if got is None else got % WORDS)):
                    return
                if not self.check(more and moved == 1, 'goes-on', 'goes on %sby %d' % ('' if more else 'past the last digit ', moved)):
                    return
            else:
                if not self.check(not more, 'stops', 'stops before a digit'):
                    return
                if not self.check(moved == pend + 1, 'left', 'is left %d characters behind the last digit' % (moved - pend - 1)):
                    return
                if p.end[0] == 'throw':
                    ok = true > self.max and p.end[1] == ERROR
                    if not self.check(ok, 'refuses', 'refuses %X' % true):
                        return
                else:
                    got = value(v, env)
                    ok = true <= self.max and agree(got, true, targs(self.f)[1])
                    if not self.check(ok, 'accepts', '%X is read as %s' % (true, got)):
                        return
        self.ctx.count('digit cases', n)

    def envs(self, p, known, pend):
        """(environment, rounds before, value so far, digit, next character or None at the end) this partition allows"""
        R = self.R
        b = self.base
        hads = [(r, H) for r in range(self.most or 1) for H in sorted({h for h in {0, 1, b ** r - 1, self.max // b, self.max // b + 1} if h < b ** r})] if self.most else \
            [(0, H) for H in sorted({0, 1, self.max // b, (self.max + 1) // b, self.max, (WORDS // b) - 1, WORDS // b, WORDS // b + 1, WORDS - 1})]
        atend = None
        t = add(R.pos, pend + 1)
        for op in (atom_lt(t, self.end), atom_lt(self.end, add(t, 1)), atom_eq(t, self.end)):
            q = truth(p, op)
            if q is not None:
                atend = (not q) if op[0] == atom_lt(t, self.end)[0] and op == atom_lt(t, self.end) else q
                break
        for r, H in hads:
            base = {self.val: H, ('op', '~', 0, 0): WORDS - 1}
            for ph, (x, dx) in R.steps.items():
                if self.most:
                    base[ph] = x + r * dx
            for c in self.digits():
                env = dict(base)
                for x in known.get(pend, set()) | self.all_at(p, pend):
                    env[x] = c
                if not consistent(p, env):
                    continue
                if atend is not False:
                    yield env, r, H, c, None
                if atend is not True:
                    seen = known.get(pend + 1, set())
                    for nx in (self.nexts() if seen else [48, 103]):
                        e2 = dict(env)
                        for x in seen:
                            e2[x] = nx
                        if consistent(p, e2):
                            yield e2, r, H, c, nx

    def nexts(self):
        return [45, 47, 48, 49, 55, 56, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103, 122]

    def all_at(self, p, pend):
        """every form in which the digit of the round may occur"""
        R = self.R
        out = {ph for ph, o in R.chars.items() if o == pend}
        out.add(leaf(add(R.pos, pend)))
        return out


# ---- POSIX names ---------------------------------------------------------------------------------------------------------------------------------

UPPER, LOWER, ALPHA, DIGIT = 256, 512, 1024, 2048       # glibc ctype masks as std::ctype_base has them
NARROW = {'alnum': ALPHA | DIGIT, 'alpha': ALPHA, 'lower': LOWER, 'upper': UPPER,
          'blank': 1 << 32 | 1 << 9, 'cntrl': T.bits(0, 31) | 1 << 127, 'digit': DIGITS, 'graph': T.bits(33, 126), 'print': T.bits(32, 126),
          'punct': sum(1 << ord(c) for c in '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'), 'space': BLANKS,
          'xdigit': DIGITS | T.bits(65, 70) | T.bits(97, 102)}
WIDE = {'alnum': (('Ll', 'Lu', 'Nd'), 0), 'alpha': (('Ll', 'Lu'), 0), 'blank': (('Zs',), 1 << 9), 'cntrl': (('Cc',), 0), 'digit': (('Nd',), 0),
        'graph': (('Z', 'C'), None), 'lower': (('Ll',), 0), 'print': (('C',), None), 'punct': (('P', 'S'), 0),
        'space': (('Z',), BLANKS), 'upper': (('Lu',), 0)}
LOCALE = ('alnum', 'alpha', 'lower', 'upper')


def prop_marks():
    """every property used in a literal is given a bit of its own beyond the code points"""
    names = sorted({n for ns, _ in WIDE.values() for n in ns})
    return {n: 1 << (T.TOP + 1 + i) for i, n in enumerate(names)}


def wide_text(l):
    """(property names, code point mask, complemented) of a bracket expression with properties"""
    marks = prop_marks()

    def prop(n):
        return marks.setdefault(n, 1 << (T.TOP + 1 + len(marks)))
    neg = len(l) > 1 and l[1] == 94
    body = [l[0]] + list(l[2:]) if neg else list(l)
    m = T.parse(body, prop, T.TOP)
    return frozenset(n for n, b in marks.items() if m & b), m & ((1 << (T.TOP + 1)) - 1), neg


def callees(F, f):
    out = set()
    visit(f['body'], lambda n: out.add(n['fn']) if n.get('k') == 'call' and n.get('fn') in F.fns else None)
    return {g for g in out if 'body' in F.fns[g]}


def reaching(F, f, name):
    """callees of f from which a function called `name` is reached"""
    memo = {}

    def reach(g):
        if g not in memo:
            memo[g] = False
            memo[g] = F.fns[g]['n'] == name or any(reach(x) for x in callees(F, F.fns[g]))
        return memo[g]
    return {g for g in callees(F, f) if reach(g) and HELPER in F.fns[g].get('cls', '') and F.fns[g]['n'] != name}


def posix(ctx, F, f):
    o, where = who(f), at(f)
    S, t = stateparam(f)
    groups = {F.fns[g]['n']: F.fns[g] for g in reaching(F, f, 'charset')}
    I = look(ctx, F, f, LEAVE | set(groups))
    curr, end = ('in', ('f', ('v', S), '_curr')), ('in', ('f', ('v', S), '_end'))
    done = {}
    accepted = {}
    for p in live(I):
        if p.end[0] == 'throw':
            continue
        cs = [e for e in p.ev if e[0] == 'call' and e[1]['n'] in groups]
        if not ctx.check(len(cs) == 1, 'posix-name', o + ':read', where, '%d sets are read for a POSIX name' % len(cs)):
            continue
        e = cs[0]
        g = groups[e[1]['n']]
        v = textstate(I, p, e, [q['n'] for q in g['params']].index(stateparam(g)[0]))
        k = add(I.proj(v, 'f', '_curr'), curr, -1) if v is not None else None
        if v is None:
            k = 0 if not [w for w in p.ev if w[0] == 'write' and w[1] == ('f', ('v', S), '_curr')] else None
        if not isinstance(k, int):
            raise CheckError('where the POSIX name is read from is not known')
        if g['n'] not in done:
            done[g['n']] = Group(ctx, F, g)
        G = done[g['n']]
        facts = {}
        for a, pol in p.facts.atoms.items():
            c = chareq_(a)
            if c and pol and isinstance(add(c[0], curr, -1), int):
                facts[add(c[0], curr, -1)] = c[1]
        neg = facts.get(0) == 94
        if not neg:
            q = truth(p, atom_eq(leaf(curr), 94))
            if q is None and (0 not in facts):
                ctx.bad('posix-name', o + ':negated', where, 'reads a POSIX name without looking for ^')
                continue
        given = e[3][[q['n'] for q in g['params']].index(G.neg)]
        given = value(given, {}) if not isinstance(given, tuple) else I_truth(p, given)
        prefix = [facts.get(i) for i in range(1 if neg else 0, k)]
        for name, parity, q in G.names(prefix, facts, k):
            if name is None:
                ctx.bad('posix-name', o + ':' + g['n'], at(g), 'accepts a name it does not know')
                continue
            if not ctx.check(name in NARROW, 'posix-name', o + ':' + name, at(g), 'the name %s is accepted' % name):
                continue
            accepted.setdefault((name, neg), set()).add(True)
            ctx.check(given is not None and parity(bool(given)) is neg, 'posix-set', o + ':%s%s:complement' % ('^' if neg else '', name), at(g),
                      '[:%s%s:] is %scomplemented' % ('^' if neg else '', name, '' if given is not None and parity(bool(given)) else 'not '))
            G.set(name, q, o)
        for name in NARROW:
            for text in [name]:
                G.refuses(o, p, neg, facts, k, text)
    for name in NARROW:
        for neg in (False, True):
            ctx.check((name, neg) in accepted, 'posix-name', o + ':%s%s' % ('^' if neg else '', name), where, 'the name is never accepted')
    # the first character alone never refuses a documented name
    L0, L1 = leaf(curr), leaf(add(curr, 1))
    for name in NARROW:
        for neg in (False, True):
            env = {L0: 94, L1: ord(name[0])} if neg else {L0: ord(name[0]), L1: ord(name[1])}
            env.update({curr: 1000, end: 2000})
            for p in live(I):
                if p.end[0] == 'throw' and consistent(p, env):
                    ctx.bad('posix-name', o + ':%s%s' % ('^' if neg else '', name), where, 'the name may be refused')


def chareq_(a):
    """(position, code) of a fact that a character is a code"""
    if a[0] != 'eq' or len(a[1]) != 1:
        return None
    k, n = a[1][0]
    k = uncast(k)
    if isinstance(k, tuple) and k[0] == 'in' and k[1][0] == 'd' and n in (1, -1):
        return k[1][1], -a[2] * n
    return None


def F_const(F, e):
    g = F.fns.get(e[1].get('fn'))
    return bool(g and g.get('const'))


def I_truth(p, v):
    if isinstance(v, tuple) and v[0] == 'cmp':
        r = p.facts.query(v[1])
        return None if r is None else r == v[2]
    return None


def flipped(q, tok):
    """the set that is added is complemented (not those added before)"""
    ins = [e for e in q.ev if e[0] == 'call' and e[1]['n'] == 'insert' and e[2] == ('v', tok)]
    cs = named(q, 'charset')
    if not ins or not cs:
        return False
    lo, hi = q.ev.index(cs[0]), q.ev.index(ins[0])
    n = len([e for e in q.ev[lo:hi] if e[0] == 'call' and e[1]['n'] == 'negate' and ('addr', e[2]) == cs[0][3][1]])
    return n % 2 == 1


class Group:
    """a function that reads the rest of one or two POSIX names and adds their set"""

    def __init__(self, ctx, F, g):
        self.ctx, self.F, self.g = ctx, F, g
        self.S, self.t = stateparam(g)
        self.neg = next((q['n'] for q in g['params'] if bare(q['t'].replace('const', '').strip()) == 'bool'), None)
        self.tok = next((q['n'] for q in g['params'] if 'string_token<' in q['t']), None)
        if self.neg is None or self.tok is None:
            raise CheckError('parameters of ' + g['q'])
        self.I = look(ctx, F, g, LEAVE | {'charset', 'insert', 'negate'})
        self.steps = StepLoops(self.I)
        self.curr = ('in', ('f', ('v', self.S), '_curr'))
        self.end = ('in', ('f', ('v', self.S), '_end'))
        self.judged = set()

    def names(self, prefix, facts, k):
        """(name, what becomes of the negation, partition) for every accepting partition"""
        for q in live(self.I):
            if q.end[0] != 'ret':
                continue
            m = matched(self.I, self.steps, q, self.curr, self.I.val(q, ('f', ('v', self.S), '_curr')))
            if m is None:
                yield None, None, q
                continue
            m = [facts.get(k + i) if x is None else x for i, x in enumerate(m)]
            m = prefix + m
            if None in m or m[-2:] != [58, 93]:
                yield None, None, q
                continue
            if any(i >= 0 and facts.get(k + i) not in (None, x) for i, x in enumerate(m[len(prefix):])):
                continue                                 # not the first character this partition has
            P = ('in', ('v', self.neg))
            known = truth(q, atom_eq(P, 0))
            flips = flipped(q, self.tok)
            if known is None:
                yield ''.join(map(chr, m[:-2])), lambda given, flips=flips: flips, q
            else:
                # only if the parameter is what this partition takes it to be
                yield ''.join(map(chr, m[:-2])), lambda given, flips=flips, known=known: flips if given == (not known) else given, q

    def refuses(self, o, p, neg, facts, k, name):
        """no partition that refuses is one the documented name can take"""
        text = ([94] if neg else []) + [ord(c) for c in name] + [58, 93, 93]
        if any(i < len(text) and text[i] != c for i, c in facts.items()):
            return
        I, S = self.I, self.steps
        base = {self.curr: 1000 + k, self.end: 2000}
        for i in range(len(text) - k):
            base[leaf(add(self.curr, i))] = text[k + i]
        for h in S.loops:
            fs = list(S.loops[h])
            if len(fs) != 2:
                raise CheckError('a loop compares more than two sequences')
        for q in live(I):
            if q.end[0] == 'back':
                continue
            hs = [h for h in S.loops if h in q.ents]
            if len([e for e in q.ev if e[0] == 'loop']) > len(hs) and q.end[0] == 'throw':
                # loops that build a set come after the name: they do not refuse
                pass
            if q.end[0] != 'throw':
                continue
            for env in self.rounds(q, hs, base, text, k):
                if consistent(q, env):
                    self.ctx.bad('posix-name', o + ':%s%s' % ('^' if neg else '', name), at(self.g), 'the name may be refused')
                    return
        self.ctx.ok('posix-name', o + ':%s%s:%s' % ('^' if neg else '', name, self.g['n']), at(self.g))

    def rounds(self, q, hs, base, text, k):
        if not hs:
            yield base
            return
        h = hs[0]
        a, b = list(self.steps.loops[h])
        lit = {x: literal(self.steps.entry(q, h, x)) for x in (a, b)}
        lp = a if lit[a] else b
        sp = b if lp == a else a
        if not lit[lp]:
            raise CheckError('a POSIX name is compared with something that is no literal')
        l = list(lit[lp][0][lit[lp][1]:]) + [0]
        off = add(self.steps.entry(q, h, sp), self.curr, -1)
        if not isinstance(off, int):
            raise CheckError('a POSIX name is compared from an unknown place')
        for n in range(len(l)):
            env = dict(base)
            env[lp], env[sp] = 5000 + n, 1000 + k + off + n
            env[leaf(lp)] = l[n]
            for j in range(0, 6):
                i = k + off + n + j
                if i < len(text):
                    env[leaf(add(sp, j))] = text[i]
            for j in range(1, 6):
                if n + j < len(l):
                    env[leaf(add(lp, j))] = l[n + j]
            yield env
            if k + off + n >= len(text) or text[k + off + n] != l[n]:
                return

    def set(self, name, q, o):
        """what partition q adds is the set of the name"""
        ctx, I, g = self.ctx, self.I, self.g
        where = at(g)
        inst = o + ':' + name
        cs = named(q, 'charset')
        ins = [e for e in q.ev if e[0] == 'call' and e[1]['n'] == 'insert' and e[2] == ('v', self.tok)]
        other = [e for e in q.ev if e[0] == 'call' and e[2] == ('v', self.tok) and e not in ins and not F_const(self.F, e)]
        ctx.check(not other, 'posix-set', inst + ':others', where, 'what the expression held before is changed')
        if not ctx.check(len(cs) == 1 and len(ins) == 1, 'posix-set', inst + ':added', where, '%d sets read, %d added' % (len(cs), len(ins))):
            return
        e = cs[0]
        tmp = e[3][1]
        x = ins[0][3][0] if ins[0][3] else None
        while isinstance(x, tuple) and x[0] == 'mut' and x[1] == 'negate':
            x = x[2]
        ok = isinstance(tmp, tuple) and tmp[0] == 'addr' and (tmp[1] == ('v', self.tok) or isinstance(x, tuple) and x[0] == 'hv' and x[2] == tmp[1])
        ctx.check(ok and q.ev.index(e) < q.ev.index(ins[0]), 'posix-set', inst + ':added', where, 'adds %s' % show(x)[:80])
        v = textstate(I, q, e)
        if not ctx.check(v is not None, 'posix-set', inst + ':text', where, 'reads an unknown text'):
            return
        c, end, flags, loc, start = readfrom(I, v)
        ctx.check(strip_field(flags) == ('_flags', self.S) and strip_field(loc) == ('_locale', self.S), 'posix-set', inst + ':flags', where,
                  'the set is read with other flags or another locale')
        base, l, built = self.text(q, c)
        d = beyond(end, base) if base is not None else None
        good = c == start and base is not None and beyond(c, base) == 1
        good = good and (d == ('pure', 'strlen', (base,)) or l is not None and d == len(l) or built is not None and d == ('size', built))
        if not ctx.check(good, 'posix-set', inst + ':whole', where, 'the text is read from %s to %s' % (show(c)[:60], show(end)[:60])):
            return
        narrow = BITS[targs(g)[1]] == 8
        if narrow and name in LOCALE:
            if l is not None:
                ctx.bad('posix-set', inst + ':locale', where, '%s is the same in every locale: %s' % (name, ''.join(map(chr, l))))
            else:
                self.classified(name, q, built, inst)
            return
        if l is None:
            ctx.bad('posix-set', inst + ':set', where, 'reads a text that is put together: %s' % show(built)[:80])
            return
        said = ''.join(map(chr, l))
        if 0 in l:
            ctx.bad('posix-set', inst + ':set', where, 'the text %r ends early' % said)
        elif narrow or name == 'xdigit':
            for hi in {0xff, top(g)}:
                ctx.check(T.parse(l, None, hi) == NARROW[name], 'posix-set', inst + ':set', where, '%s is read as %s' % (name, said))
        else:
            ps, extra = WIDE[name]
            got = wide_text(l)
            ok = got == (frozenset(ps), 0, True) if extra is None else got[0] == frozenset(ps) and not got[2] and same_extra(got[1], extra, ps)
            ctx.check(ok, 'posix-set', inst + ':set', where, '%s is read as %s' % (name, said))

    def text(self, q, c):
        """(start of the text, its codes if it is a literal, the value it was built as otherwise) of position c"""
        for k, n in [(c[2], 1)] if isinstance(c, tuple) and c[:2] == ('op', '+') else lin(c)[0].items():
            if n == 1:
                l = literal(k)
                if l is not None and l[1] == 0:
                    return k, list(l[0]), None
                if isinstance(k, tuple) and k[0] == 'begin':
                    P = k[1]
                    v = self.I.val(q, P) if isinstance(P, tuple) and P[0] in ('v', 'f') else P
                    w = strval(v)
                    return (k, w, None) if w is not None else (k, None, v)
        return None, None, None

    def classified(self, name, q, v, inst):
        """the text is [ + every character the locale puts in the class + ]"""
        ctx, where = self.ctx, at(self.g)
        I = self.I
        L = Loops(I)
        t = appended(v)
        if t is None or t[1] != [93]:
            ctx.bad('posix-set', inst + ':locale', where, 'the text of %s does not end with ]: %s' % (name, show(v)[:100]))
            return
        ph = t[0]
        if not (isinstance(ph, tuple) and ph[0] == 'phi'):
            ctx.bad('posix-set', inst + ':locale', where, 'the text of %s is %s' % (name, show(v)[:100]))
            return
        h = ph[1]
        cl = I.classes[L.block[h]]
        Q = next(Q for Q in cl if L.phi(h, Q) == ph)
        for e in [e for p in I.paths for e in p.ev if e[0] == 'loop' and e[1] == h]:
            if strval(e[2][Q]) != [91]:
                ctx.bad('posix-set', inst + ':locale', where, 'the text of %s starts with %s' % (name, show(e[2][Q])[:60]))
                return
        d = L.desc[h]
        if not ctx.check(d is not None and not d.get('down') and d['start'] == 0 and d['bound'] == 256, 'posix-set', inst + ':every', where,
                         'not every character is classified for %s' % name):
            return
        n = d['phi']
        for p in L.backs(h):
            a = appended(p.ret[Q])
            is_ = [(x, pol) for x, pol in p.decisions() if any(k_is(y) for y, _ in x[1])]
            if not ctx.check(len(is_) == 1 and a is not None and a[0] == ph, 'posix-set', inst + ':each', where, 'a character is not classified'):
                continue
            (x, pol), = is_
            call = next(y for y, _ in x[1] if k_is(y))
            locale = any(z == ('in', ('f', ('v', self.S), '_locale')) for z in parts_(call)) or any(strip_field(z) == ('_locale', self.S) for z in parts_(call))
            inclass = (not pol) if x[0] == 'eq' and x[2] == 0 else None
            good = locale and call[3][0] == NARROW[name] and uncast(call[3][1]) == n and inclass is not None
            want = [n] if inclass else []
            ctx.check(good and [uncast(y) for y in a[1]] == want, 'posix-set', inst + ':each', where,
                      'for %s a character %s class %s adds %s' % (name, 'in' if inclass else 'not in', show(call[3][0]), [show(y) for y in a[1]]))


def same_extra(got, extra, ps):
    """the characters named besides the properties: those that no property of the name has count"""
    spaces = 1 << 32                                    # a space is Zs
    return got == extra or {'Z', 'Zs'} & set(ps) and got | spaces == extra | spaces


def beyond(v, base):
    """how far v is behind base"""
    if isinstance(v, tuple) and v[:2] == ('op', '+') and v[2] == base:
        return v[3]
    return add(v, base, -1)


def k_is(v):
    return isinstance(v, tuple) and v[:2] == ('m', 'is')


def strval(v):
    """codes of a string value that is known"""
    l = literal(v) if isinstance(v, tuple) else None
    if l is not None and l[1] == 0:
        return list(l[0])
    if isinstance(v, tuple) and v[0] == 'str':
        return list(v[1])
    a = appended(v)
    if a is not None and a[0] == ('empty',) and all(isinstance(x, int) for x in a[1]):
        return a[1]
    if isinstance(v, tuple) and v[0] == 'new' and 'basic_string' in v[1]:
        xs = [x for x in v[2] if x != ('empty',) and not (isinstance(x, tuple) and x[0] == 'new' and 'allocator' in x[1])]
        if len(xs) == 2 and xs[0] == 1 and isinstance(xs[1], int):
            return [xs[1]]
        if len(xs) >= 1:
            l = literal(xs[0]) if isinstance(xs[0], tuple) else None
            if l is not None and l[1] == 0:
                return list(l[0])
    return None


def appended(v):
    """(what was there before, characters added at its end)"""
    out = []
    while isinstance(v, tuple) and (v[0] == 'push' or v[0] == 'mut' and v[1] in ('append', 'push_back', 'operator+=')):
        if v[0] == 'push':
            out.append(v[2])
            v = v[1]
        else:
            xs = v[3]
            if len(xs) == 2 and xs[0] == 1:
                xs = xs[1:]
            if len(xs) != 1:
                return None
            out.append(xs[0])
            v = v[2]
    if v == ('empty',) or isinstance(v, tuple):
        return v, out[::-1]
    return None


# ---- bracket expressions -------------------------------------------------------------------------------------------------------------------------

def atend(p, ends):
    """partition p knows some position to be the end of the text"""
    for a, pol in p.facts.atoms.items():
        if a[0] == 'lt' and any(k in ends for k, _ in a[1]) and len(a[1]) == 2:
            n = next(n for k, n in a[1] if k in ends)
            # position + c < end is false, or end < position + c is true
            if n == -1 and not pol or n == 1 and pol:
                return True
    return False


def ends_of(p, I):
    out = set()
    for a in p.facts.atoms:
        for k, _ in a[1]:
            if isinstance(k, tuple) and (strip_field(k) or ('',))[0] == '_end':
                out.add(k)
    return out


def outarg(v):
    """place a call may have changed, for its value afterwards"""
    v = uncast(v)
    return v[2] if isinstance(v, tuple) and v[0] == 'hv' else None


def inserted(p, tok, folded, calls=None):
    """what is inserted into the token besides counterparts in the other case"""
    out = []
    for e in p.ev if calls is None else calls:
        if e[0] == 'call' and e[1]['n'] == 'insert' and e[2] == ('v', tok):
            x = e[3][0]
            if outarg(x) in folded:
                continue
            out.append(x)
    return out


def folds(p):
    return {a[1] for e in p.ev if e[0] == 'call' and e[1]['n'] == 'fold' for a in e[3] if isinstance(a, tuple) and a[0] == 'addr'}


def pairof(x):
    """the ends of a range value"""
    if isinstance(x, tuple) and x[0] == 'new' and 'pair<' in x[1] and len(x[2]) == 2:
        return x[2]
    return None


def range_(ctx, F, f):
    o, where = who(f), at(f)
    S, t = stateparam(f)
    ctype = targs(f)[1]
    par = {q['n']: q['t'] for q in f['params']}
    tok = next(n for n, x in par.items() if 'string_token<' in x)
    isset = next(n for n, x in par.items() if bare(x.replace('const', '').strip()) == 'bool' and '&' not in x)
    first = next(n for n, x in par.items() if bare(x.replace('const', '').strip()) == ctype and '&' not in x)
    out = next(n for n, x in par.items() if bare(x.split('&')[0].strip()) == t and '&' in x)
    I = look(ctx, F, f, LEAVE | {'escape_sequence', 'fold', 'insert', 'empty'})
    curr, end = ('in', ('f', ('v', S), '_curr')), ('in', ('f', ('v', S), '_end'))
    C = leaf(curr)
    A = ('in', ('v', first))
    for p in live(I):
        esc = named(p, 'escape_sequence')
        back = truth(p, atom_eq(C, 92))
        gone = atend(p, ends_of(p, I))
        setfirst = truth(p, atom_eq(('in', ('v', isset)), 0))
        setlast = bool(esc) and truth(p, atom_eq(esc[0][4], 0)) is False
        name = truth(p, atom_eq(C, 91)) is True and truth(p, atom_eq(leaf(add(curr, 1)), 58)) is True
        if esc:
            v = textstate(I, p, esc[0])
            here = add(I.proj(v, 'f', '_curr'), curr, -1) if v is not None else None
            ctx.check(back is True and here == 1 and len(esc) == 1, 'ranges', o + ':escape', where, 'the end of a range is read as an escape at the wrong place')
            B = next((x for a in p.facts.atoms for k, _ in a[1] for x in parts_(k) if x[0] == 'hv' and len(esc[0][3]) > 1 and ('addr', x[-1]) == esc[0][3][1]), None)
            st = changes(p, esc[0]).get(('v', S), (None, None))[0]
            at2 = I.proj(st, 'f', '_curr') if st else None
        else:
            B, at2 = C, add(curr, 1)
        if p.end[0] == 'throw':
            ok = setfirst is False or gone or setlast or name
            if not ok:
                ok = B is not None and all(ordered(x, y, ctype) is False for x, y, env in pairs(p, A, B, t, ctype, bool(esc)) if consistent(p, env))
            ctx.check(ok and p.end[1] == ERROR, 'ranges', o + ':refuses', where, 'a range is refused for no reason')
            continue
        if not ctx.check(setfirst is True, 'ranges', o + ':set-first', where, 'a set is accepted as the start of a range'):
            continue
        ctx.check(back is not None and (back is False or len(esc) == 1 and truth(p, atom_eq(esc[0][4], 0)) is True), 'ranges', o + ':set-last', where,
                  'a set is accepted as the end of a range, or an escape is not read')
        ctx.check(back is True or truth(p, atom_eq(C, 91)) is False or truth(p, atom_eq(leaf(add(curr, 1)), 58)) is False or
                  truth(p, atom_lt(add(curr, 1), end)) is False, 'ranges', o + ':posix', where, 'a POSIX name is accepted as the end of a range')
        ins = [pairof(x) for x in inserted(p, tok, folds(p))]
        if not ctx.check(len(ins) == 1 and ins[0] is not None, 'ranges', o + ':added', where, '%d ranges are added' % len(ins)):
            continue
        if B is None:
            B = next((x for y in ins[0] for x in parts_(y) if isinstance(x, tuple) and x[0] == 'hv' and ('addr', x[-1]) == esc[0][3][1]), None)
        good = B is not None
        for x, y, env in pairs(p, A, B, t, ctype, bool(esc)) if good else ():
            if consistent(p, env):
                good = good and ordered(x, y, ctype) and agree(value(ins[0][0], env), x, ctype) and agree(value(ins[0][1], env), y, ctype)
        ctx.check(good, 'ranges', o + ':added', where, 'a range is added as %s' % show(ins[0])[:120])
        fin = I.val(p, ('f', ('v', S), '_curr'))
        nxt = uncast(I.val(p, ('v', out)))
        ctx.check(at2 is not None and add(fin, at2, -1) == 1 and nxt == leaf(at2), 'ranges', o + ':goes-on', where,
                  'goes on with %s at %s' % (show(nxt)[:60], show(fin)[:60]))


def ordered(a, b, t):
    m = (1 << BITS[t]) - 1
    return a & m <= b & m


def pairs(p, A, B, t, ctype, esc):
    vs = [-128, -1, 0, 1, 65, 90, 127] if ctype == 'char' else [0, 1, 65, 90, 127, 255] if BITS[ctype] == 8 else [0, 1, 65, 90, 0xffff, 0x10000, 0x10ffff]
    lo, hi = (-128, 127) if ctype == 'char' else (0, (1 << BITS[ctype]) - 1)
    vs = sorted(set(vs) | {c for c in noted([p]) if lo <= c <= hi})
    ys = vs if esc or t == ctype else [v for v in vs if 0 <= v < 128]
    for x in vs:
        for y in ys:
            yield x, y, {A: x, B: y}


def items(ctx, F, f):
    o, where = who(f), at(f)
    S, t = stateparam(f)
    tok = next(q['n'] for q in f['params'] if 'string_token<' in q['t'])
    I = look(ctx, F, f, LEAVE | {'escape_sequence', 'posix', 'charset_range', 'charset', 'fold', 'insert', 'negate'})
    L = Loops(I)
    hs = [h for h in L.desc if L.backs(h)]
    if len(hs) != 1:
        raise CheckError('%d loops in %s' % (len(hs), f['q']))
    h, = hs
    V = ('v', S)
    curr = ('in', ('f', V, '_curr'))
    cl = I.classes[L.block[h]]
    state = L.phi(h, V)
    if state is None:
        raise CheckError('the position is not kept in ' + S)
    pos0 = I.proj(state, 'f', '_curr')
    heads = {k for p in L.backs(h) for a in p.facts.atoms if a[0] == 'eq' and len(a[1]) == 1 and abs(a[2]) == 92
             for k in [uncast(a[1][0][0])] if isinstance(k, tuple) and k[0] == 'phi' and k[1] == h}
    if len(heads) != 1:
        raise CheckError('which character an item starts with is not known')
    X, = heads
    XP = next(P for P in cl if L.phi(h, P) == X)
    for p, k, ent in L.entries(h):
        c = truth(p, atom_eq(leaf(curr), 94))
        n = 1 if c is True else 0
        st = ent.get(V)
        at1 = add(I.proj(st, 'f', '_curr'), curr, -1) if st is not None else add(I.val(p, ('f', V, '_curr')), curr, -1)
        ctx.check(c is not None and at1 == n + 1 and uncast(ent[XP]) == leaf(add(curr, n)), 'items', o + ':first', where,
                  'the first item is %s, read up to %s' % (show(ent[XP])[:60], show(at1)[:60]))
    for p in live(I):
        js = [i for i, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == h]
        if js and p.end[0] != 'back':
            neg = truth(p, atom_eq(leaf(curr), 94))
            flips = [i for i, e in enumerate(p.ev) if e[0] == 'call' and e[1]['n'] == 'negate' and e[2] == ('v', tok)]
            more = [i for i, e in enumerate(p.ev) if e[0] == 'call' and e[1]['n'] == 'insert' and e[2] == ('v', tok)]
            if p.end[0] == 'ret':
                ok = neg is not None and len(flips) % 2 == int(neg) and (not flips or min(flips) > max(js + more))
                ctx.check(ok, 'items', o + ':complement', where, 'the set is %scomplemented %s ^' % (('', 'with') if flips else ('not ', 'after')))
        if p.end[0] == 'throw':
            empty = any(pol and a[0] == 'eq' and len(a[1]) == 1 and a[2] == 0 and isinstance(a[1][0][0], tuple) and a[1][0][0][0] == 'size'
                        for a, pol in p.facts.atoms.items())
            ctx.check((atend(p, ends_of(p, I)) or empty) and p.end[1] == ERROR, 'items', o + ':refuses', where, 'a bracket expression is refused for no reason')
            continue
        if not js:
            ctx.bad('items', o + ':none', where, 'accepts without reading an item')
            continue
        ev = p.ev[js[0]:]
        esc, psx, rng, cs = [[e for e in ev if e[0] == 'call' and e[1]['n'] == n] for n in ('escape_sequence', 'posix', 'charset_range', 'charset')]
        isesc = truth(p, atom_eq(X, 92))
        where_ = lambda e: (lambda v: None if v is None else I.proj(v, 'f', '_curr'))(textstate(I, p, e, next(
            i for i, a in enumerate(e[3]) if a == ('addr', V))))
        after = lambda e: changes(p, e).get(V, (None, None))[0]
        if isesc is True:
            ok = len(esc) == 1 and not psx and where_(esc[0]) == pos0
            if not ctx.check(ok, 'items', o + ':escape', where, 'a \\ is not read as an escape'):
                continue
            isset = truth(p, atom_eq(esc[0][4], 0))
            isset = None if isset is None else not isset
            out = esc[0][3][1]
            pos1 = I.proj(after(esc[0]), 'f', '_curr')
            if isset:
                ok = len(cs) == 1 and text_of(I, p, cs[0], esc[0], S)
                ctx.check(ok, 'items', o + ':set-text', where, 'the text of a shortcut is not read whole')
        elif psx:
            ok = len(psx) == 1 and not esc and truth(p, atom_eq(X, 91)) is True and truth(p, atom_eq(leaf(pos0), 58)) is True and \
                add(where_(psx[0]), pos0, -1) == 1 and ('addr', ('v', tok)) in psx[0][3]
            if not ctx.check(ok, 'items', o + ':posix', where, 'something else is read as a POSIX name'):
                continue
            isset, pos1 = True, I.proj(after(psx[0]), 'f', '_curr')
        else:
            ok = isesc is False and not esc and (truth(p, atom_eq(X, 91)) is False or truth(p, atom_eq(leaf(pos0), 58)) is False or atpos(p, pos0, I))
            if not ctx.check(ok, 'items', o + ':char', where, 'an escape or a POSIX name is taken as a character'):
                continue
            isset, pos1 = False, pos0
        if not ctx.check(isset is not None, 'items', o + ':kind', where, 'a set and a character are not told apart'):
            continue
        N, M = leaf(pos1), leaf(add(pos1, 1))
        dash, close = truth(p, atom_eq(N, 45)), truth(p, atom_eq(M, 93))
        ranged = dash is True and close is False
        ctx.check(dash is False or dash is True and close is not None, 'items', o + ':dash', where, 'a range is not looked for')
        plain = [x for x in inserted(p, tok, folds(p), ev)]
        if ranged:
            ok = len(rng) == 1
            if ok:
                a = rng[0][3]
                names = {q['n']: i for i, q in enumerate(callee(F, rng[0])['params'])}
                given = a[next(i for q, i in zip(callee(F, rng[0])['params'], range(9)) if bare(q['t'].replace('const', '').strip()) == 'bool' and '&' not in q['t'])]
                tr = bool(given) if isinstance(given, int) else I_truth(p, given)
                val = a[next(i for q, i in zip(callee(F, rng[0])['params'], range(9)) if bare(q['t'].replace('const', '').strip()) == targs(f)[1] and '&' not in q['t'])]
                ok = tr is isset and add(where_(rng[0]), pos1, -1) == 1 and ('addr', ('v', tok)) in a
                ok = ok and (isset or itemvalue(val, isesc, X, esc, f, t))
                nextch = next((x for x in a if isinstance(x, tuple) and x[0] == 'addr' and x[1] == XP), None)
                ok = ok and nextch is not None
            ctx.check(ok, 'items', o + ':range', where, 'a range is not read as one, from its first character')
            want = 1 if isset and isesc else 0
            ctx.check(len(plain) == want, 'items', o + ':range-once', where, 'the start of a range is added by itself')
            done = next((pol for a, pol in p.facts.atoms.items() if a[0] == 'eq' and len(a[1]) == 1 and abs(a[2]) == 93 and outarg(a[1][0][0]) == XP), None)
        else:
            ctx.check(not rng, 'items', o + ':no-range', where, 'a range is read where there is none')
            if isset and not isesc:
                ok = not plain
            elif isset:
                ok = len(plain) == 1 and outarg(plain[0]) is not None and ('addr', outarg(plain[0])) == cs[0][3][1]
            else:
                q = pairof(plain[0]) if len(plain) == 1 else None
                ok = q is not None and all(itemvalue(x, isesc, X, esc, f, t) for x in q)
            ctx.check(ok, 'items', o + ':added', where, 'an item adds %s' % [show(x)[:80] for x in plain])
            done = truth(p, atom_eq(N, 93))
        if p.end[0] == 'back':
            b = p.ret.get(XP)
            st = p.ret.get(V)
            if ranged:
                ok = outarg(b) == XP
            else:
                ok = uncast(b) == N and st is not None and add(I.proj(st, 'f', '_curr'), pos1, -1) == 1
            ctx.check(done is False and ok, 'items', o + ':next', where, 'goes on with %s' % show(b)[:80])
        else:
            ctx.check(done is True, 'items', o + ':closed', where, 'ends before the closing ]')


def atpos(p, pos, I):
    """pos is known to be the end"""
    return any(truth(p, atom_lt(pos, e)) is False for e in ends_of(p, I))


def callee(F, e):
    return F.fns[e[1]['fn']]


def itemvalue(v, isesc, X, esc, f, t):
    """v is the character of an item"""
    if isesc:
        return outarg(v) is not None and ('addr', outarg(v)) == esc[0][3][1]
    cs = [c for c in codes(t) if c >= 0 or BITS[targs(f)[1]] == 8]
    return all(agree(value(v, {X: c}), c, targs(f)[1]) for c in cs)
