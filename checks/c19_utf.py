"""C19: the UTF iterators decode and encode exactly, unit by unit, and report ill-formed or cut off input."""
import re
from common import *
from loops import Loops
import bits as B
from c34_rows import where_

THIS = ('v', 'this')


def run(ctx):
    ctx.rule('decode', 'every well-formed sequence gives its code point, whatever its value', 50)
    ctx.rule('length', 'decoding goes on behind the last unit of the sequence', 50)
    ctx.rule('refused', 'a sequence is refused exactly if it is ill-formed or cut off', 150)
    ctx.rule('moves', 'constructing, ++ (both), + and - decode at the position asked for', 50)
    ctx.rule('encode', 'every code point gives its units, in order', 15)
    ctx.rule('units', 'every unit of a code point is given before the next code point is read', 25)
    ctx.rule('equal', 'iterators are equal exactly at the same unit of the same code point', 18)
    ctx.rule('flip', 'every value is given with its bytes reversed', 2)
    F = ctx.facts('d_utf')
    for (name, arg), fs in sorted(classes(F).items()):
        if name in ('basic_utf8_in_iterator', 'basic_utf16_in_iterator'):
            decoder(ctx, F, name, arg, fs)
        elif name in ('basic_utf8_out_iterator', 'basic_utf16_out_iterator'):
            encoder(ctx, F, name, arg, fs)
        elif name == 'basic_flip_iterator':
            flip(ctx, F, name, arg, fs)
    ctx.assume('the templates do the same over other iterators as over pointers to units')


def classes(F):
    """{(class, first template argument): {operation: function}}"""
    out = {}
    for f in F.fns.values():
        if 'body' not in f:
            continue
        if f.get('clsname', '').startswith('basic_') and f['clsname'].endswith('_iterator'):
            t, key = f['cls'], (f['n'], tuple(q['t'] for q in f['params'] if q['t'] == 'int'))
            if f['n'] == f['clsname']:
                if len(f['params']) != 2 and f['n'] != 'basic_flip_iterator' or not f['params'] or f['clsname'] in f['params'][0]['t'].split('<')[0]:
                    continue
                key = ('ctor', ())
        elif f['n'] in ('operator==', 'operator!=', 'operator+', 'operator-', 'operator>') and f['params'] and '_iterator' in f['params'][0]['t']:
            t, key = re.sub(r'^const | &$', '', f['params'][0]['t']), (f['n'], ())
        else:
            continue
        m = re.match(r'lexertl::(basic_\w+_iterator)<(.*)>$', t) or re.match(r'lexertl::(basic_\w+_iterator)<(.*)>$', alias(F, t))
        if not m:
            continue
        arg = m.group(2)
        arg = {'cutf8_in_utf32_out_iterator': 'lexertl::basic_utf8_in_iterator<const char *, char32_t>',
               'cutf16_in_utf32_out_iterator': 'lexertl::basic_utf16_in_iterator<const char16_t *, char32_t>'}.get(arg, arg)
        out.setdefault((m.group(1), arg), {})[key[0] + ('(int)' if key[1] else '')] = f
    return out


def alias(F, t):
    return {'lexertl::cutf8_in_utf32_out_iterator': 'lexertl::basic_utf8_in_iterator<const char *, char32_t>',
            'lexertl::cutf16_in_utf32_out_iterator': 'lexertl::basic_utf16_in_iterator<const char16_t *, char32_t>',
            'lexertl::cwchar_t_in_utf32_out_iterator': 'lexertl::basic_utf16_in_iterator<const wchar_t *, char32_t>'}.get(t, t)


def unitof(arg):
    m = re.match(r'const (\w+) \*', arg)
    return m.group(1) if m else 'char' if arg.startswith(('std::string::', 'std::basic_string<char>::', '__gnu_cxx::__normal_iterator<const char *')) else None


def shortname(name, arg):
    return '%s<%s>' % (name.replace('basic_', '').replace('_iterator', ''), re.sub(r'lexertl::|std::|basic_|_iterator|::const', '', arg))


class Op:
    """one operation with everything inlined: partitions and the members afterwards"""

    def __init__(self, ctx, F, f):
        self.f, self.where = f, where_(f)
        self.I = interp(ctx, F, f, lambda g: True)
        self.paths = [p for p in self.I.paths if p.end[0] != 'unreach']
        self.returned = f['n'] in ('operator+', 'operator-')

    def get(self, p, field):
        if self.returned:
            return self.I.proj(p.ret, 'f', field)
        return self.I.val(p, ('f', THIS, field))


def need(fs, ops, what):
    for o in ops:
        if o not in fs:
            raise CheckError('%s: no %s' % (what, o))


# ---------------------------------------------------------------------------------------- decoding

# lead units: (from, to, units of the sequence; 0: ill-formed; None: not specified)
LEAD = {8: [(0, 0x7f, 1), (0x80, 0xbf, 0), (0xc0, 0xc1, None), (0xc2, 0xdf, 2), (0xe0, 0xe0, 3), (0xe1, 0xec, 3), (0xed, 0xed, 3), (0xee, 0xef, 3),
            (0xf0, 0xf0, 4), (0xf1, 0xf3, 4), (0xf4, 0xf4, 4), (0xf5, 0xf7, None), (0xf8, 0xff, 0)],
        16: [(0, 0xd7ff, 1), (0xd800, 0xdbff, 2), (0xdc00, 0xdfff, 0), (0xe000, 0xffff, 1)]}
TRAIL = {8: [(0, 0x7f, False), (0x80, 0xbf, True), (0xc0, 0xff, False)], 16: [(0, 0xdbff, False), (0xdc00, 0xdfff, True), (0xe000, 0xffff, False)]}
# what may follow these leads (Unicode, table 3-7); all others: any trail
NARROW = {0xe0: (0xa0, 0xbf), 0xed: (0x80, 0x9f), 0xf0: (0x90, 0xbf), 0xf4: (0x80, 0x8f)}


def expected(width, units):
    """bits of the code point from the bits of the units"""
    n = len(units)
    if width == 8:
        if n == 1:
            b = units[0][:7]
        else:
            b = []
            for u in reversed(units[1:]):
                b += u[:6]
            b += units[0][:6 - (n - 1)] if n > 1 else []
        return b + [0] * (B.N - len(b))
    if n == 1:
        return units[0][:16] + [0] * (B.N - 16)
    pair = units[1][:10] + units[0][:10]
    return B.adder(pair + [0] * (B.N - 20), B.const(0x10000))


def decoder(ctx, F, name, arg, fs):
    t = unitof(arg)
    o = shortname(name, arg)
    need(fs, ('ctor', 'operator*', 'operator++', 'operator++(int)', 'operator==', 'operator!=', 'operator+', 'operator-'), o)
    width = 8 if '8' in name else 16
    if t is None:
        raise CheckError('unit type of ' + o)
    ops = {k: Op(ctx, F, f) for k, f in fs.items()}
    # the member holding the character, the position, the end of the sequence, the end of the input
    star = ops['operator*'].paths
    val = star[0].ret[1][2] if len(star) == 1 and isinstance(star[0].ret, tuple) and star[0].ret[0] == 'in' and star[0].ret[1][0] == 'f' else None
    if val is None:
        ctx.bad('decode', o + ': character', where_(fs['operator*']), 'not simply a member')
        return
    pos = equality(ctx, F, o, fs, 1)
    ctor = ops['ctor']
    P = [('in', ('v', q['n'])) for q in fs['ctor']['params']]
    members = fieldsof(ctor.I, ctor.paths)
    eois = [m for m in members if all(ctor.get(p, m) == P[1] for p in ctor.paths if p.end[0] == 'ret')]
    nexts = {ops['operator++'].get(p, pos) for p in ops['operator++'].paths if p.end[0] == 'ret'}
    if len(eois) != 1 or len(nexts) != 1 or not isinstance(list(nexts)[0], tuple) or list(nexts)[0][:2] != ('in', ('f', THIS, list(nexts)[0][1][2])):
        ctx.bad('moves', o + ': members', ctor.where, 'no single end of the input %s or next position %s' % (eois, [show(x) for x in nexts]))
        return
    eoi, nxt = eois[0], list(nexts)[0][1][2]
    decodes(ctx, o + ': constructed', ctor, width, t, P[0], P[1], pos, nxt, val, ctor.paths)
    for k in ('operator++', 'operator++(int)'):
        op = ops[k]
        decodes(ctx, '%s: %s' % (o, 'x++' if '(' in k else '++x'), op, width, t, ('in', ('f', THIS, nxt)), ('in', ('f', THIS, eoi)), pos, nxt, val, op.paths)
        returns(ctx, o, op, '(' in k)
    for p in ctor.paths:
        ctx.check(p.end[0] != 'ret' or ctor.get(p, eoi) == P[1], 'moves', o + ': end', ctor.where, showpath(p))
    for k, down in (('operator+', False), ('operator-', True)):
        jump(ctx, o, ops[k], down, width, t, pos, nxt, eoi, val)


def returns(ctx, o, op, old):
    for p in op.paths:
        if p.end[0] == 'ret':
            ok = p.ret == ('in', THIS) if old else p.ret in (('addr', THIS), THIS)
            ctx.check(ok, 'moves', '%s: result of %s' % (o, 'x++' if old else '++x'), op.where, 'gives %s' % show(p.ret))


def fieldsof(I, paths):
    out = []
    for p in paths:
        for e in p.ev:
            if e[0] == 'write' and e[1][0] == 'f' and e[1][1] == THIS and e[1][2] not in out:
                out.append(e[1][2])
    return out


def equality(ctx, F, o, fs, count):
    """== compares exactly the members that tell the position; returns the first"""
    f = fs['operator==']
    I = interp(ctx, F, f, lambda g: True)
    l, r = [('v', q['n']) for q in f['params']]
    where = where_(f)
    seen, ok = [], True

    def atoms(v):
        return v[1] if isinstance(v, tuple) and v[0] == 'cmp' else None
    cases = []
    for p in I.paths:
        if p.end[0] != 'ret':
            continue
        facts = [(a, pol) for a, pol in p.facts.atoms.items()]
        ret = p.ret
        if isinstance(ret, tuple) and ret[0] == 'cmp':
            cases += [(facts + [(ret[1], x)], int(x == ret[2])) for x in (True, False)]
        else:
            cases.append((facts, int(ret) if isinstance(ret, (int, bool)) else None))
    trues = [c for c in cases if c[1] == 1]
    for facts, ret in trues:
        got = []
        for a, pol in facts:
            if pol is not True or a[0] != 'eq' or a[2] != 0 or sorted(n for k, n in a[1]) != [-1, 1]:
                ok = False
                continue
            (x, _), (y, _) = a[1]
            fx, fy = path(x, l, r), path(y, l, r)
            ok = ok and fx is not None and fx == fy
            got.append(fx)
        seen = got if len(got) > len(seen) else seen
    for facts, ret in cases:
        if ret != 1:
            ok = ok and ret == 0 and any(pol is False and a[0] == 'eq' for a, pol in facts)
    ctx.check(ok and len(trues) == 1 and len(seen) == count, 'equal', o + ': ==', where, 'compares %s' % (seen,))
    g = fs['operator!=']
    J = interp(ctx, F, g, lambda g: True)

    def table(I, f):
        l, r = [('v', q['n']) for q in f['params']]
        t = set()
        for p in I.paths:
            if p.end[0] != 'ret':
                continue
            cs = [(dict(p.facts.atoms), p.ret)]
            if isinstance(p.ret, tuple) and p.ret[0] == 'cmp':
                cs = [(dict(list(p.facts.atoms.items()) + [(p.ret[1], x)]), int(x == p.ret[2])) for x in (True, False)]
            for facts, ret in cs:
                t.add((frozenset((str(a).replace(repr(l[1]), 'L').replace(repr(r[1]), 'R'), v) for a, v in facts.items()), int(ret) if isinstance(ret, (int, bool)) else None))
        return t
    a, b = table(I, f), table(J, g)
    ctx.check({(x, 1 - y if y in (0, 1) else None) for x, y in a} == b or opposite(a, b), 'equal', o + ': !=', where_(g), 'is not the opposite of ==')
    first = [s for s in seen if s and s[0] != 'index']
    return first[0][0] if first else None


def opposite(a, b):
    """no case of == and case of != that can hold together give the same answer"""
    for x, y in a:
        for u, v in b:
            dx, du = dict(x), dict(u)
            if all(du.get(k, w) == w for k, w in dx.items()) and y == v:
                return False
    return True


def path(v, l, r):
    """the member path read from one side"""
    if not isinstance(v, tuple) or v[0] != 'in':
        return None
    P, out = v[1], []
    while P[0] == 'f':
        out.append(P[2])
        P = P[1]
    return tuple(reversed(out)) if P in (l, r) else None


def decodes(ctx, o, op, width, t, start, end, pos, nxt, val, paths, extra=None):
    """the partitions decode the sequence at start"""
    I = op.I
    w = 8 if width == 8 else 16
    for p in paths:
        at_end = p.facts.query(atom_eq(start, end)[0]) is atom_eq(start, end)[1]
        if p.end[0] == 'ret':
            ctx.check(op.get(p, pos) == start, 'moves', o, op.where, 'stands at %s, not at %s\n%s' % (show(op.get(p, pos)), show(start), showpath(p)))
        if at_end:
            ctx.check(p.end[0] != 'throw', 'refused', o + ': at the end', op.where, 'nothing is left, but it throws\n' + showpath(p))
            continue
        units = [('in', ('d', add(start, k))) for k in range(4)]
        atoms = p.facts.atoms
        mine = [[a for a in atoms if B.mentions(a, u) and not any(B.mentions(a, x) for x in units if x != u)] for u in units]

        def allowed(k, cl):
            out = []
            for b, n, tag, known in B.split(units[k], t, cl, mine[k], w):
                if all(v is None or v == atoms[a] for a, v in known.items()):
                    out.append((b, n, tag))
            return out
        past = [p.facts.query(atom_eq(add(start, k), end)[0]) for k in range(5)]
        past = [None if q is None else q is atom_eq(add(start, k), end)[1] for k, q in enumerate(past)]
        leads = allowed(0, LEAD[width])
        for base, k, n in leads:
            if n is None:
                continue
            what = '%s: %#x%s' % (o, base, '' if k == 0 else '..%#x' % (base + (1 << k) - 1)) if width == 16 else '%s: lead %#x' % (o, base)
            group = '%s: %s' % (o, {0: 'ill-formed', 1: 'one unit'}.get(n, '%s units' % n))
            if p.end[0] == 'throw':
                cut = any(past[j] is True for j in range(1, n)) if n else True
                bad = not n
                for j in range(1, n):
                    lo, hi = NARROW.get(base, (0x80, 0xbf)) if width == 8 and j == 1 else (0x80, 0xbf) if width == 8 else (0xdc00, 0xdfff)
                    tr = allowed(j, TRAIL[width])
                    if not any(b <= hi and b + (1 << m) - 1 >= lo for b, m, _ in tr):
                        bad = True
                ctx.check(bad or cut, 'refused', group, op.where, '%s is refused\n%s' % (what, showpath(p)))
                ctx.check('range_error' in str(p.end[1]), 'refused', group + ': exception', op.where, str(p.end[1]))
                continue
            if p.end[0] not in ('ret', 'back'):
                continue
            if n == 0:
                ctx.bad('refused', group, op.where, '%s is accepted\n%s' % (what, showpath(p)))
                continue
            if any(past[j] is not False for j in range(1, n)):
                ctx.bad('refused', group + ': cut off', op.where, '%s is accepted where the input ends\n%s' % (what, showpath(p)))
                continue
            env = {units[0]: B.block(('u', 0), base, k, t)}
            okt = True
            for j in range(1, n):
                tr = allowed(j, TRAIL[width])
                if not all(x[2] for x in tr):
                    okt = False
                hi = 6 if width == 8 else 10
                env[units[j]] = B.block(('u', j), 0x80 if width == 8 else 0xdc00, hi, t)
            ctx.check(okt, 'refused', group + ': trail', op.where, '%s is accepted with another unit than a trailing one\n%s' % (what, showpath(p)))
            if p.end[0] == 'back':
                continue
            ctx.check(op.get(p, nxt) == add(start, n), 'length', group, op.where, '%s goes on at %s\n%s' % (what, show(op.get(p, nxt)), showpath(p)))
            got = B.bits(op.get(p, val), env)[:32]
            want = expected(width, [env[units[j]] for j in range(n)])[:32]
            ctx.check(got == want, 'decode', group, op.where, '%s gives %s, not %s\n%s' % (what, form(got), form(want), showpath(p)))


def form(b):
    return ' '.join(str(x) if x in (0, 1) else '?' if x is None else '%s%d' % ('abcd'[x[0][1]] if x[0][1] in (0, 1, 2, 3) else '', x[1]) for x in reversed(b[:21]))


def jump(ctx, o, op, down, width, t, pos, nxt, eoi, val):
    I = op.I
    where = op.where
    L = Loops(I)
    it, n = [('v', q['n']) for q in op.f['params']]
    name = '%s: %s' % (o, '-' if down else '+')
    hs = [h for h in L.block if L.desc.get(h) and (L.desc[h]['bound'] == ('in', n) and L.desc[h]['start'] == 0 and not L.desc[h]['down'] or
                                                  L.desc[h]['down'] and L.desc[h]['start'] == ('in', n) and L.desc[h]['bound'] == 0)]
    counted = hs[0] if hs else next((h for h in L.block if countdown(L, h, n)), None)
    ctx.check(counted is not None, 'moves', name + ': steps', where, 'not as many steps as asked for')
    if counted is None:
        return
    h = counted
    fields = {}
    for P in I.classes[L.block[h]]:
        if P[0] == 'f':
            fields[P[2]] = P
    if pos not in fields:
        ctx.bad('moves', name + ': position', where, 'the position is not moved')
        return
    ph = {k: L.phi(h, P) for k, P in fields.items()}
    for p, k, ev in L.entries(h):
        for x, P in fields.items():
            ctx.check(ev.get(P) == ('in', ('f', it, x)), 'moves', name + ': from', where, 'does not start from the iterator\n' + showpath(p))
    eoiv = ph.get(eoi, ('in', ('f', it, eoi)))
    if not down:
        class Round:
            f, I = op.f, op.I
            where = op.where

            @staticmethod
            def get(p, x):
                return p.ret.get(fields[x], ph[x]) if isinstance(p.ret, dict) else I.val(p, fields[x])
        rounds = [p for p in I.paths if p.end[0] == 'back' and p.end[1] == h] + [p for p in op.paths if p.end[0] == 'throw']
        for p in rounds:
            if p.end[0] == 'back':
                ctx.check(Round.get(p, pos) == ph[nxt], 'moves', name, where, 'a step goes to %s\n%s' % (show(Round.get(p, pos)), showpath(p)))
        # the same decoding as ++, member by member
        fake = Round()
        conv = []
        for p in rounds:
            conv.append(Back(p) if p.end[0] == 'back' else p)
        decodes(ctx, name, fake, width, t, ph[nxt], eoiv, pos, nxt, val, conv)
        for p in op.paths:
            if p.end[0] == 'ret':
                for x in fields:
                    ctx.check(op.get(p, x) == ph[x], 'moves', name + ': result', where, '%s is %s\n%s' % (x, show(op.get(p, x)), showpath(p)))
        return
    # going back: one unit, then over trailing units
    inner = [g for g in L.block if g != h and L.block[g] in I.classes]
    back = [p for p in I.paths if p.end[0] == 'back' and p.end[1] == h]
    for p in back:
        end = p.ret.get(fields[pos], ph[pos])
        if width == 16:
            u = ('in', ('d', add(ph[pos], -1)))
            ats = [a for a in p.facts.atoms if B.mentions(a, u)]
            for b, k, tag, known in B.split(u, t, TRAIL[16], ats, 16):
                if all(v is None or v == p.facts.atoms[a] for a, v in known.items()):
                    ctx.check(end == add(ph[pos], -2 if tag else -1), 'moves', name, where, 'goes back to %s before %#x\n%s' % (show(end), b, showpath(p)))
        else:
            steps = add(ph[pos], end, -1)
            if isinstance(steps, int) and 1 <= steps <= 4:
                # a bounded number of units, each looked at on its own
                for j in range(1, steps + 1):
                    u = ('in', ('d', add(ph[pos], -j)))
                    ats = [a for a in p.facts.atoms if B.mentions(a, u)]
                    for b, k, tag, known in B.split(u, t, TRAIL[8], ats, 8):
                        if all(v is None or v == p.facts.atoms[a] for a, v in known.items()):
                            ctx.check(bool(tag) == (j < steps) or j == 4, 'moves', name + ': trailing', where, '%d back from before %#x\n%s' % (steps, b, showpath(p)))
                continue
            g = [x for x in inner if end == L.phi(x, fields[pos])]
            ctx.check(len(g) == 1, 'moves', name + ': trailing', where, 'goes back to %s\n%s' % (show(end), showpath(p)))
            if len(g) == 1:
                over(ctx, name, op, L, g[0], fields[pos], ph[pos], t, where, p)
    ctx.check(bool(back), 'moves', name, where, 'does not go back')
    class Rest:
        f, I = op.f, op.I
        where = op.where
        get = staticmethod(op.get)
    done = [p for p in op.paths if p.end[0] in ('ret', 'throw')]
    decodes(ctx, name, Rest(), width, t, ph[pos], eoiv, pos, nxt, val, done)


def countdown(L, h, n):
    """a loop that counts a copy of n down to 0"""
    for p, k, ev in L.entries(h):
        for P, v in ev.items():
            if v == ('in', n) and P[0] == 'v':
                ph = L.phi(h, P)
                if all(q.ret.get(P, ph) == add(ph, -1) for q in L.backs(h)):
                    return True
    return False


class Back:
    def __init__(self, p):
        self.end, self.ret, self.facts, self.ev = ('ret',), p.ret, p.facts, p.ev
        self.p = p

    def __getattr__(self, n):
        return getattr(self.p, n)


def over(ctx, name, op, L, g, P, start, t, where, last):
    """the inner loop goes down from start - 1 while on a trailing unit"""
    ph = L.phi(g, P)
    u = ('in', ('d', ph))
    for p, k, ev in L.entries(g):
        ctx.check(ev.get(P) == add(start, -1), 'moves', name + ': back', where, 'starts at %s\n%s' % (show(ev.get(P)), showpath(p)))
    for p in L.backs(g) + [last]:
        ats = [a for a in p.facts.atoms if B.mentions(a, u)]
        stay = p is not last
        for b, k, tag, known in B.split(u, t, TRAIL[8], ats, 8):
            if all(v is None or v == p.facts.atoms[a] for a, v in known.items()):
                ctx.check(bool(tag) == stay, 'moves', name + ': trailing', where, '%#x: %s\n%s' % (b, 'goes on back' if stay else 'stops', showpath(p)))
        if stay:
            ctx.check(p.ret.get(P, ph) == add(ph, -1), 'moves', name + ': back', where, 'steps to %s\n%s' % (show(p.ret.get(P, ph)), showpath(p)))


# ---------------------------------------------------------------------------------------- encoding

POINTS = {8: [(0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xd7ff, 3), (0xd800, 0xdfff, None), (0xe000, 0xffff, 3), (0x10000, 0x10ffff, 4)],
          16: [(0, 0xd7ff, 1), (0xd800, 0xdfff, None), (0xe000, 0xffff, 1), (0x10000, 0x10ffff, 2)]}


def unitbits(width, n, c):
    """the units of a code point with bits c"""
    if width == 16:
        if n == 1:
            return [c[:16]]
        d = B.adder(c, B.const(-0x10000))
        return [d[10:20] + [0, 1, 1, 0, 1, 1], c[:10] + [1, 1, 1, 0, 1, 1]]
    if n == 1:
        return [c[:8]]
    out = []
    for j in range(n - 1):
        out.insert(0, c[6 * j:6 * j + 6] + [0, 1])
    rest = c[6 * (n - 1):6 * (n - 1) + 7 - n]
    return [rest + [0] * (7 - n - len(rest)) + [0] + [1] * n] + out


def encoder(ctx, F, name, arg, fs):
    o = shortname(name, arg)
    need(fs, ('ctor', 'operator*', 'operator++', 'operator++(int)', 'operator==', 'operator!='), o)
    width = 8 if '8' in name else 16
    t = unitof(arg)
    equality(ctx, F, o, fs, 2)
    if t is None:
        return      # over another iterator: the same template
    ops = {k: Op(ctx, F, fs[k]) for k in ('ctor', 'operator*', 'operator++', 'operator++(int)')}
    star = ops['operator*'].paths
    r = star[0].ret if len(star) == 1 else None
    if not (isinstance(r, tuple) and r[0] == 'in' and r[1][0] == 'i' and r[1][1][0] == 'f' and isinstance(r[1][2], tuple) and r[1][2][0] == 'in' and r[1][2][1][:2] == ('f', THIS)):
        ctx.bad('units', o + ': unit', where_(fs['operator*']), 'not the unit counted to')
        return
    buf, idx = r[1][1], r[1][2][1][2]
    ctor = ops['ctor']
    P = [('in', ('v', q['n'])) for q in fs['ctor']['params']]
    members = fieldsof(ctor.I, ctor.paths)
    eois = [m for m in members if all(ctor.get(p, m) == P[1] for p in ctor.paths if p.end[0] == 'ret')]
    its = [m for m in members if all(ctor.get(p, m) == P[0] for p in ctor.paths if p.end[0] == 'ret')]
    if len(eois) != 1 or len(its) != 1:
        ctx.bad('units', o + ': members', ctor.where, 'position %s, end %s' % (its, eois))
        return
    eoi, it = eois[0], its[0]
    start = ('in', ('f', THIS, it))
    counts = {k[1][2] for p in ops['operator++'].paths for a in p.facts.atoms if a[0] in ('eq', 'lt') for k, n in a[1]
              if isinstance(k, tuple) and k[0] == 'in' and k[1][:2] == ('f', THIS)} - {idx, eoi, it}
    if len(counts) != 1:
        ctx.bad('units', o + ': count', where_(fs['operator++']), 'members compared: %s' % sorted(counts))
        return
    cnt = list(counts)[0]
    top = 4 if width == 8 else 2
    encodes(ctx, o + ': constructed', ctor, width, t, P[0], P[1], it, idx, cnt, buf, ctor.paths)
    for k in ('operator++', 'operator++(int)'):
        op = ops[k]
        nm = '%s: %s' % (o, 'x++' if '(' in k else '++x')
        returns(ctx, o, op, '(' in k)
        going = []
        for p in op.paths:
            if p.end[0] != 'ret':
                ctx.bad('units', nm, op.where, 'ends with %s' % (p.end,))
                continue
            here = False
            for c in range(1, top + 1):
                for i in range(c):
                    env = {('in', ('f', THIS, idx)): B.const(i), ('in', ('f', THIS, cnt)): B.const(c)}
                    if any(B.fact(a, env) not in (None, v) for a, v in p.facts.atoms.items()):
                        continue
                    if i + 1 < c:
                        same = op.get(p, it) == start and B.number(B.bits(op.get(p, cnt), env)) == c and B.number(B.bits(op.get(p, idx), env)) == i + 1
                        same = same and not any(e[0] == 'write' and e[1][0] == 'i' and e[1][1] == buf for e in p.ev)
                        ctx.check(same, 'units', nm + ': next unit', op.where, 'unit %d of %d\n%s' % (i + 1, c, showpath(p)))
                    else:
                        here = True
                        ctx.check(op.get(p, it) == add(start, 1), 'units', nm + ': next code point', op.where, 'unit %d of %d\n%s' % (i + 1, c, showpath(p)))
            if here:
                going.append(p)
        encodes(ctx, nm, op, width, t, add(start, 1), ('in', ('f', THIS, eoi)), it, idx, cnt, buf, going)


def encodes(ctx, o, op, width, t, start, end, it, idx, cnt, buf, paths):
    u = ('in', ('d', start))
    for p in paths:
        if p.end[0] != 'ret':
            ctx.bad('encode', o, op.where, 'ends with %s\n%s' % (p.end, showpath(p)))
            continue
        q = p.facts.query(atom_eq(start, end)[0])
        ended = q is not None and q is atom_eq(start, end)[1]
        ctx.check(op.get(p, idx) == 0, 'units', o + ': first unit', op.where, 'starts with unit %s\n%s' % (show(op.get(p, idx)), showpath(p)))
        if ended:
            continue
        atoms = [a for a in p.facts.atoms if B.mentions(a, u)]
        for base, k, n, known in B.split(u, t, POINTS[width], atoms + [True], 21):
            if n is None or any(v is not None and v != p.facts.atoms[a] for a, v in known.items() if a is not True):
                continue
            if n > 1 and width == 16 and k > 10:
                blocks = [(base + (j << 10), 10) for j in range(1 << (k - 10))]
            else:
                blocks = [(base, k)]
            for b, m in blocks:
                c = B.block(('u', ''), b, m, t)
                env = {u: c}
                group = '%s: %d unit%s' % (o, n, 's' if n > 1 else '')
                ctx.check(op.get(p, cnt) == n, 'units', group + ': count', op.where, '%#x..%#x: %s units\n%s' % (b, b + (1 << m) - 1, show(op.get(p, cnt)), showpath(p)))
                for j, want in enumerate(unitbits(width, n, c)):
                    got = B.bits(op.I.val(p, ('i', buf, j)), env)[:len(want)]
                    ctx.check(got == want, 'encode', group, op.where, '%#x..%#x: unit %d is %s, not %s\n%s' % (b, b + (1 << m) - 1, j + 1, form(got), form(want), showpath(p)))


def flip(ctx, F, name, arg, fs):
    o = shortname(name, arg)
    need(fs, ('ctor', 'operator*', 'operator++', 'operator++(int)', 'operator==', 'operator!='), o)
    equality(ctx, F, o, fs, 1)
    for k in ('operator++', 'operator++(int)'):
        op = Op(ctx, F, fs[k])
        returns(ctx, o, op, '(' in k)
        for p in op.paths:
            ctx.check(p.end[0] == 'ret' and any(op.get(p, m) == add(('in', ('f', THIS, m)), 1) for m in fieldsof(op.I, [p])), 'moves', o + ': ++', op.where, showpath(p))
    op = Op(ctx, F, fs['operator*'])
    L = Loops(op.I)
    hs = list(L.block)
    ok = len(hs) == 1
    if ok:
        h = hs[0]
        val = None
        for p, k, ev in L.entries(h):
            firsts = {P: v for P, v in ev.items() if P[0] == 'v'}
            low = [P for P, v in firsts.items() if isinstance(v, tuple) and v[0] == 'cast' and v[1] == 'char *' and v[2][0] == 'addr']
            ok = ok and len(low) == 1
            if not ok:
                break
            val = firsts[low[0]][2][1]
            last = add(('cast', 'char *', add(('addr', val), 1)), -1)
            high = [P for P, v in firsts.items() if v == last]
            ok = len(high) == 1
            if not ok:
                break
            a, b = L.phi(h, low[0]), L.phi(h, high[0])
            for q in op.I.paths:
                if q.end[0] == 'back':
                    w = [(e[1], e[2]) for e in q.ev if e[0] == 'write' and e[1][0] == 'd']
                    ok = ok and sorted(w, key=repr) == sorted([(('d', a), ('in', ('d', b))), (('d', b), ('in', ('d', a)))], key=repr)
                    ok = ok and q.ret.get(low[0], a) == add(a, 1) and q.ret.get(high[0], b) == add(b, -1) and less(q, a, b) is True
                elif q.end[0] == 'ret':
                    ok = ok and less(q, a, b) is False
    ctx.check(ok, 'flip', o, op.where, 'the bytes are not swapped from both ends to the middle')


def less(p, a, b):
    at, pol = atom_lt(a, b)
    q = p.facts.query(at)
    return None if q is None else q is pol
