"""Abstract transition relation of lookup, in terms of the transition-table rows it reads (shared by C10 and C11)."""
from lookup_common import *


def enum(F, q):
    for e in F.enums:
        if e['q'] == q:
            return {v['n']: v['v'] for v in e['vals']}
    raise CheckError('enum %s not found' % q)


def cell(v):
    """pointer whose pointee v is, or None"""
    if isinstance(v, tuple) and v[0] == 'in' and isinstance(v[1], tuple):
        P = v[1]
        if P[0] == 'i':
            return add(('begin', P[1]), P[2])
        if P[0] == 'd':
            return P[1]
    return None


def at(ptr, k):
    """value of the table cell ptr+k (as the interpreter names it)"""
    p = add(ptr, k)
    t, c = lin(p)
    for x, n in t.items():
        if n == 1 and x[0] == 'begin':
            return ('in', ('i', x[1], add(p, x, -1)))
    return ('in', ('d', p))


class Model:
    def __init__(self, ctx, t, f, sm, res, I):
        self.t, self.f, self.sm, self.res, self.I = t, f, sm, res, I
        F = ctx.facts('d_core')
        self.F = F
        self.SI = enum(F, 'lexertl::state_index')
        self.SB = enum(F, 'lexertl::state_bit')
        self.FB = enum(F, 'lexertl::feature_bit')
        self.recursive = 'recursive_match_results' in t
        self.flags = self.parse_flags(t)
        self.internals = ('f', sm, '_internals')
        self.seeds = inputs(I, res)
        self.eoi = ('in', ('f', res, 'eoi'))
        self.npos = 65535
        self.skip = 65534
        # the scanning loop: the one that reads the input at a position it carries round
        hs = set()
        for p in I.paths:
            for e in p.ev:
                if e[0] == 'read' and e[1][0] == 'd' and e[1][1] in self.seeds and e[1][1][0] == 'phi' and p.end[0] == 'back' and p.end[1] == e[1][1][1]:
                    hs.add(e[1][1][1])
        if not hs:
            raise CheckError('no scanning loop in lookup(%s)' % t)
        self.h = max(hs)
        self.hb = [b for b, n in I.hnum.items() if n == self.h][0]
        self.cls = I.classes[self.hb]
        self.backs = [p for p in I.paths if p.end == ('back', self.h)]
        self.commits = [p for p in I.paths if self.h in p.ents and p.end[0] in ('ret', 'back') and p.end != ('back', self.h)]
        self.find_roles(ctx)

    def parse_flags(self, t):
        d = sum(v for k, v in self.FB.items() if k != 'recursive')
        if self.recursive:
            return d | self.FB['recursive']
        a = t[t.index('<') + 1:t.rindex('>')]
        depth, parts, cur = 0, [], ''
        for c in a:
            if c == '<':
                depth += 1
            if c == '>':
                depth -= 1
            if c == ',' and depth == 0:
                parts.append(cur.strip())
                cur = ''
            else:
                cur += c
        parts.append(cur.strip())
        return int(parts[2]) if len(parts) > 2 else d

    def has(self, n):
        return bool(self.flags & self.FB[n])

    def phi(self, P):
        return ('phi', self.h, self.cls[P])

    def find_roles(self, ctx):
        """identify, from what the function returns and reads, the places that play each role in the scanning loop"""
        mods = sorted(self.cls, key=repr)
        self.CP = [P for P in mods if self.phi(P) in self.seeds and any(p.ret.get(P) == add(self.phi(P), 1) for p in self.backs)]
        if len({self.cls[P] for P in self.CP}) != 1:
            raise CheckError('scanning position not identified in lookup(%s)' % self.t)
        self.CP = self.CP[0]
        # the row pointer: the carried pointer through which table cells are read
        cand = set()
        for p in self.backs:
            for e in p.ev:
                if e[0] == 'read' and e[1][0] == 'd':
                    tt, c = lin(e[1][1])
                    for x in tt:
                        if x[0] == 'phi' and x[1] == self.h and x not in self.seeds:
                            cand.add(x)
        self.PP = [P for P in mods if self.phi(P) in cand]
        if len(self.PP) != 1:
            raise CheckError('row pointer not identified in lookup(%s): %d candidates' % (self.t, len(self.PP)))
        self.PP = self.PP[0]

    def running_bol(self):
        """the carried line-start flag: starts as the caller's, becomes (consumed character is a newline)"""
        res = self.res
        out = []
        nl = ('cmp',) + atom_eq(self.char(self.phi(self.CP)), 10)
        steps = [q for q in self.backs if q.ret[self.CP] != self.phi(self.CP)]
        for P in self.cls:
            if steps and all(q.ret[P] == nl for q in steps):
                out.append(P)
        return out

    def zero(self, p, v, facts=None):
        """True/False/None: is v == 0 on the partition"""
        if isinstance(v, int):
            return v == 0
        r = atom_eq(v, 0)
        if isinstance(r, bool):
            return r
        q = (facts or p.facts).query(r[0])
        return None if q is None else q == r[1]

    def accepting(self, p, row):
        """True/False/None: was the row found accepting on the partition (flags cell, or its accepting bit)"""
        x = at(row, self.SI['end_state'])
        z = self.zero(p, x)
        if z is None:
            b = self.SB['end_state']
            z = self.zero(p, ('op', '&') + tuple(sorted((x, b), key=repr)))
        return None if z is None else not z

    def char(self, pos):
        return ('in', ('d', pos))


def entry_value(I, p, P):
    """value of P when the scanning attempt began"""
    v = None
    for h in sorted(p.ents):
        b = [x for x, k in I.hnum.items() if k == h][0]
        if P in I.classes[b]:
            v = ('phi', h, I.classes[b][P])
    return v if v is not None else ('in', P)


def models(ctx):
    return [Model(ctx, *x) for x in analyse(ctx)]
