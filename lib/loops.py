"""Shape of loops recovered from an interpreted function: what is traversed, how often, and what every round does."""
from ai import *


class Loops:
    def __init__(self, I):
        self.I = I
        self.block = {n: b for b, n in I.hnum.items()}
        self.desc = {}
        for h in self.block:
            if self.block[h] in I.classes:
                self.desc[h] = self.describe(h)

    def phi(self, h, P):
        c = self.I.classes[self.block[h]]
        return ('phi', h, c[P]) if P in c else None

    def local(self, p, ph):
        """(start, bound) of counter ph (one step up a round) as partition p enters its loop, or None"""
        if not (isinstance(ph, tuple) and ph[0] == 'phi' and ph[1] in self.block):
            return None
        h = ph[1]
        P = next((P for P in self.I.classes[self.block[h]] if self.phi(h, P) == ph), None)
        if P is None or {add(q.ret.get(P, 0), ph, -1) for q in self.backs(h)} != {1}:
            return None
        ks = [k for k, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == h]
        if not ks:
            return None
        d = next((e for e in p.ev[ks[-1] + 1:] if e[0] == 'dec' and e[1][0] in ('eq', 'lt') and any(t == ph for t, _ in e[1][1])), None)
        if d is None:
            return None
        b = self.bound(ph, d[1], 1, None)
        return None if b is None else (p.ev[ks[-1]][2][P], b)

    def entries(self, h):
        out = []
        for p in self.I.paths:
            for k, e in enumerate(p.ev):
                if e[0] == 'loop' and e[1] == h:
                    out.append((p, k, e[2]))
        return out

    def backs(self, h):
        return [p for p in self.I.paths if p.end == ('back', h)]

    def describe(self, h):
        """{'phi','place','start','bound'} of the traversal of loop h (positions start <= x < bound, one step a round), or None"""
        ents, backs = self.entries(h), self.backs(h)
        if not ents or not backs:
            return None
        for P in sorted(self.I.classes[self.block[h]], key=repr):
            f = self.phi(h, P)
            steps = {add(q.ret[P], f, -1) if P in q.ret else None for q in backs}
            if len(steps) != 1:
                continue
            st = steps.pop()
            if st not in (1, -1):
                continue
            # first decision of the loop that looks at the position
            bound = None
            good = True
            for p, k, ent in ents:
                d = next((e for e in p.ev[k + 1:] if e[0] == 'dec' and e[1][0] in ('eq', 'lt') and any(t == f for t, _ in e[1][1])), None)
                if d is None:
                    good = False
                    break
                b = self.bound(f, d[1], st, ent[P])
                if st == -1 and d[1][0] == 'lt' and b == 1:
                    b = 0   # goes on while the counter is at least one
                if b is None or (bound is not None and bound != b):
                    good = False
                    break
                bound = b
            if not good or bound is None:
                continue
            starts = {ent[P] for p, k, ent in ents}
            if st == -1:
                return {'phi': f, 'place': P, 'start': 0, 'bound': sorted(starts, key=repr)[0], 'down': True} if len(starts) == 1 and bound == 0 else None
            return {'phi': f, 'place': P, 'start': sorted(starts, key=repr)[0], 'starts': starts, 'bound': bound, 'down': False}
        return None

    def bound(self, f, atom, st, ent):
        t = dict(atom[1])
        c = t.get(f)
        d = mklin(dict(atom[1]), atom[2])
        if atom[0] == 'eq':
            if c == 1:
                return add(f, d, -1)
            if c == -1:
                return add(f, d)
            return None
        if c == 1:      # f - N < 0
            return add(f, d, -1)
        if c == -1:     # not (M - f + c < 0)  <=>  f < M + c + 1
            return add(add(d, f), 1)
        return None

    def container(self, h):
        """place of the container loop h walks over completely from front to back, or None"""
        d = self.desc.get(h)
        if not d or d['down']:
            return None
        s, b = d['start'], d['bound']
        if isinstance(s, tuple) and s[0] == 'begin':
            n = add(b, s, -1)
            if isinstance(n, tuple) and n[0] == 'size':
                return s[1]
        if s == 0 and isinstance(b, tuple) and b[0] == 'size' and b[1][0] == 'in':
            return b[1][1]
        return None

    def element(self, h, v):
        """is v (an input term) the element loop h stands at?"""
        d = self.desc.get(h)
        C = self.container(h)
        if C is None:
            return False
        return v in (('in', ('d', d['phi'])), ('in', ('i', C, d['phi'])))


def language(I, tok):
    """token sequences: main (returning partitions) and one set per loop body; tok(p, e) -> token or None"""
    main, body = {}, {}
    for p in I.paths:
        ts, start = [], {}
        for e in p.ev:
            if e[0] == 'loop':
                ts.append(('L', e[1]))
                start[e[1]] = len(ts)
            else:
                t = tok(p, e)
                if t is not None:
                    ts.append(t)
        if p.end[0] == 'ret':
            main.setdefault(tuple(ts), p)
        elif p.end[0] == 'back':
            body.setdefault(p.end[1], {}).setdefault(tuple(ts[start[p.end[1]]:]), p)
    return main, body
