"""Which text a partition has matched: reconstructed from its character comparisons and from loops that compare two sequences in step."""
from ai import *


def widened(k):
    """a character converted to a type that holds every character"""
    while isinstance(k, tuple) and k[0] == 'cast' and k[1] in ('char32_t', 'wchar_t', 'int', 'unsigned int', 'long', 'unsigned long'):
        k = k[2]
    return k


def chareq(atom):
    """(place, code) of an 'element == constant' atom, (placeA, placeB) of an 'element == element' atom, else None"""
    if atom[0] != 'eq':
        return None
    t = [(widened(k), n) for k, n in atom[1]]
    deref = lambda k: isinstance(k, tuple) and k[0] == 'in' and k[1][0] in ('d', 'i')
    if len(t) == 1 and deref(t[0][0]) and t[0][1] in (1, -1):
        return t[0][0], -atom[2] * t[0][1]
    if len(t) == 2 and atom[2] == 0 and t[0][1] == -t[1][1] and all(deref(k) for k, n in t):
        return t[0][0], t[1][0]
    return None


def pos(elem):
    """position (pointer term) of an element term"""
    P = elem[1]
    if P[0] == 'd':
        return P[1]
    return add(('begin', P[1]), P[2])


class StepLoops:
    """loops whose every round advances two positions by one after finding the elements there equal"""

    def __init__(self, I):
        self.I = I
        self.loops = {}
        block = {n: b for b, n in I.hnum.items()}
        for h, b in block.items():
            if b not in I.classes:
                continue
            backs = [p for p in I.paths if p.end == ('back', h)]
            if not backs:
                continue
            phis = {}
            for P in I.classes[b]:
                f = ('phi', h, I.classes[b][P])
                if all(P in q.ret and add(q.ret[P], f, -1) == 1 for q in backs):
                    phis[f] = P
            pair = None
            for q in backs:
                k = next(i for i, e in enumerate(q.ev) if e[0] == 'loop' and e[1] == h)
                got = set()
                for e in q.ev[k + 1:]:
                    if e[0] == 'dec' and e[2] is True:
                        c = chareq(e[1])
                        if c and isinstance(c[1], tuple) and pos(c[0]) in phis and pos(c[1]) in phis:
                            got.add(frozenset((pos(c[0]), pos(c[1]))))
                pair = got if pair is None else pair & got
            if pair and len(pair) == 1:
                a, b2 = sorted(next(iter(pair)), key=repr) if len(next(iter(pair))) == 2 else (None, None)
                if a is not None:
                    self.loops[h] = {a: phis[a], b2: phis[b2]}

    def partner(self, h, f):
        o = [x for x in self.loops[h] if x != f]
        return o[0] if len(o) == 1 else None

    def entry(self, p, h, f):
        return p.ents[h][self.loops[h][f]]


def literal(v):
    """(codes, offset) of a position inside a literal"""
    t, c = lin(v)
    ks = [k for k, n in t.items() if n == 1]
    if len(ks) == 1 and len(t) == 1 and isinstance(ks[0], tuple):
        k = ks[0]
        if k[0] == 'str':
            return k[1], c
        if k[0] == 'begin' and isinstance(k[1], tuple) and k[1][0] == 'str':
            return k[1][1], c
        if k[0] == 'addr' and k[1][0] == 'i' and k[1][1][0] == 'str' and isinstance(k[1][2], int):
            return k[1][1][1], c + k[1][2]
    return None


def matched(I, S, p, start, end):
    """characters between the positions start and end the partition has established (None where unknown); a list, or None if the end
    cannot be traced back to the start"""
    facts = {}
    for a, pol in p.decisions():
        if pol:
            c = chareq(a)
            if c and isinstance(c[1], int):
                facts[pos(c[0])] = c[1]
    out = []
    v = end
    for _ in range(40):
        d = add(v, start, -1)
        if isinstance(d, int):
            if d < 0:
                return None
            return [facts.get(add(start, i)) for i in range(d)] + out
        t, c = lin(v)
        f = [k for k, n in t.items() if n == 1 and isinstance(k, tuple) and k[0] == 'phi' and k[1] in S.loops and k in S.loops[k[1]]]
        if len(f) != 1 or len(t) != 1 or c < 0:
            return None
        f = f[0]
        h = f[1]
        out = [facts.get(add(f, i)) for i in range(c)] + out
        g = S.partner(h, f)
        l = literal(S.entry(p, h, g)) if g else None
        if l is None:
            return None
        # the loop went through the whole literal
        if facts.get(g) != 0:
            return None
        out = list(l[0][l[1]:]) + out
        v = S.entry(p, h, f)
    return None
