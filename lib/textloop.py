"""Functions that read a text: every segment between loop headers, calls and ends is judged against a step of what the text means.

A segment starts where the position is known only by an invariant (function entry, loop header, after a call). It is evaluated for short texts from
there on, whatever the code then does with them, and must end in a configuration the specification reaches from the same text."""
from itertools import permutations, product
from ai import *
from evalx import value, fact
from loops import Loops

BASE = 1000


def leaf(v):
    return ('in', ('d', v))


class Config:
    """mode, characters consumed, variables; or an end"""
    def __init__(self, mode, k, end=None, **var):
        self.mode, self.k, self.end, self.var = mode, k, end, var

    def __repr__(self):
        return '%s after %d %s%s' % (self.end or self.mode, self.k, ' '.join('%s=%s' % x for x in sorted(self.var.items())), '')


class Reading:
    """f reads state parameter S; names: _curr/_end are the fields of it"""

    def __init__(self, I, S, unsigned=()):
        self.I, self.S = I, S
        self.L = Loops(I)
        self.V = ('v', S)
        self.P = ('f', self.V, '_curr')
        self.heads = [h for h in self.L.block if self.L.block[h] in I.classes]
        self.facts = Facts()
        self.ends = {k for p in I.paths for a in p.facts.atoms if a[0] in ('eq', 'lt') for k, _ in a[1] if fieldof(k) == '_end'}
        self.spots = {}
        for h in self.heads:
            self.spots[h] = self.spot(h)

    def places(self, h):
        return list(self.I.classes[self.L.block[h]])

    def at(self, h, P):
        """value of a place at header h"""
        ph = self.L.phi(h, P)
        if ph is None and P[0] == 'f' and P[1] == self.V:
            w = self.L.phi(h, self.V)
            ph = self.I.proj(w, 'f', P[2]) if w is not None else None
        return ph

    def given(self, vals, P):
        v = vals.get(P)
        if v is None and P[0] == 'f' and P[1] == self.V and self.V in vals:
            v = self.I.proj(vals[self.V], 'f', P[2])
        return v

    def arrivals(self, h):
        """(values, partition) of every way to the header"""
        seen = set()
        for p in self.I.paths:
            for e in p.ev:
                if e[0] == 'loop' and e[1] == h:
                    r = repr(e[2])
                    if r not in seen:
                        seen.add(r)
                        yield e[2], p
            if p.end == ('back', h):
                yield p.ret, p

    def used(self, ph):
        """the value is looked at"""
        ps = self.I.paths
        return any(mentions(a, ph) for p in ps for a in p.facts.atoms) or any(mentions(e[2:], ph) for p in ps for e in p.ev if e[0] in ('write', 'call')) or \
            any(mentions(p.ret, ph) for p in ps if p.end[0] == 'ret')

    def spot(self, h):
        """(position, place of the character before it, place of the end flag) at a header"""
        pos = self.at(h, self.P)
        arr = list(self.arrivals(h))
        x = e = None
        for Q in self.places(h):
            ph = self.L.phi(h, Q)
            if Q in (self.V, self.P) or ph == pos:
                continue
            ok = bool(arr)
            for vals, p in arr:
                v, np = uncast(vals.get(Q, ph)), self.given(vals, self.P)
                np = pos if np is None else np
                zero = v == 0 or isinstance(v, tuple) and v[0] == 'phi'
                outer = isinstance(v, tuple) and v[0] in ('in', 'hv') and v[-1][0] == 'v'
                ok = ok and (zero or outer or v == leaf(add(np, -1)))
            if ok and self.used(ph) and any(uncast(vals.get(Q)) == leaf(add(self.given(vals, self.P) or pos, -1)) for vals, p in arr):
                x = Q
        if x is not None:
            for Q in self.places(h):
                if Q in (self.V, self.P, x):
                    continue
                ok = bool(arr)
                for vals, p in arr:
                    v, c = vals.get(Q, self.L.phi(h, Q)), uncast(vals.get(x, self.L.phi(h, x)))
                    outer = isinstance(v, tuple) and v[0] in ('in', 'hv', 'phi')
                    ok = ok and (outer or isinstance(v, int) and v == int(c == 0))
                if ok and any(isinstance(vals.get(Q), int) for vals, p in arr):
                    e = Q
        return pos, x, e

    def base(self, pos, x, e, text):
        """environment of a spot with this text still to come"""
        n = len(text)
        env = {}
        d = 1 if x is not None else 0
        if x is not None and n == 0:
            env[pos] = BASE
            env[x] = 0
            if e is not None:
                env[e] = 1
        else:
            env[pos] = BASE + d
            if x is not None:
                env[x] = text[0]
            if e is not None:
                env[e] = 0
            for i in range(n):
                env[leaf(add(pos, i - d))] = text[i]
        for k in self.ends:
            env[k] = BASE + n
        return env

    def arrived(self, pos, c, eos, has, text, k, env):
        """the values are the spot's for k characters consumed"""
        n = len(text)
        q = value(pos, env)
        x, e = (value(c, env) if has[0] else None), (value(eos, env) if has[1] else None)
        if k > n:
            return False
        if has[0]:
            if k == n:
                return q == BASE + n and x == 0 and (not has[1] or e == 1)
            return q == BASE + k + 1 and same(x, text[k]) and (not has[1] or e == 0)
        return q == BASE + k

    def segments(self, start):
        """(partition, index of the event behind the start) of the segments from a header, or from the entry for None"""
        for p in self.I.paths:
            if p.end[0] == 'unreach':
                continue
            if start is None:
                yield p, 0
            else:
                for i, e in enumerate(p.ev):
                    if e[0] == 'loop' and e[1] == start:
                        yield p, i + 1
                        break


def same(a, b):
    return a is not None and (a - b) % 256 == 0 and (a == b or abs(a - b) == 256)


def uncast(v):
    while isinstance(v, tuple) and v[0] == 'cast':
        v = v[2]
    return v


def fieldof(v):
    if isinstance(v, tuple) and v[0] in ('in', 'hv', 'phi') and isinstance(v[-1], tuple) and v[-1][0] == 'f':
        return v[-1][2]
    if isinstance(v, tuple) and v[0] == 'fld':
        return v[2]
    return None


def holds(p, env):
    return all(fact(a, env) in (None, pol) for a, pol in p.facts.atoms.items())


class Facts:
    """the facts of partitions, each looked at once per environment"""

    def __init__(self):
        self.number, self.known, self.of = {}, [], {}

    def compiled(self, p):
        c = self.of.get(id(p))
        if c is None:
            c = []
            for a, pol in p.facts.atoms.items():
                n = self.number.setdefault(a, len(self.known))
                if n == len(self.known):
                    self.known.append(a)
                c.append((n, pol))
            self.of[id(p)] = c = (c, p)
        return c[0]

    def holds(self, p, env, memo):
        for n, pol in self.compiled(p):
            if n in memo:
                x = memo[n]
            else:
                x = memo[n] = fact(self.known[n], env)
            if x is not None and x != pol:
                return False
        return True


class Judge:
    """every segment of a function against a specification

    spec.start(text, inp) -> configurations from the entry; spec.run(config, text) -> configurations from one of a header;
    the last one has an end ('ret' or 'throw')."""

    def __init__(self, R, spec):
        self.R, self.spec = R, spec
        self.count = 0

    def outcome(self, p, i):
        """the next header with its values, or the end"""
        for e in p.ev[i:]:
            if e[0] == 'loop':
                return 'loop', e[1], e[2]
        if p.end[0] == 'back':
            return 'loop', p.end[1], p.ret
        return p.end[0], p.end[1] if len(p.end) > 1 else None, None

    def env(self, h, text, var, vars_, p):
        R = self.R
        pos, x, e = R.spots[h]
        ph = lambda Q: R.L.phi(h, Q) if Q is not None else None
        env = R.base(pos, ph(x), ph(e), text)
        for name, Q in vars_.items():
            if name not in var:
                continue
            v = R.at(h, Q)
            if v is None:
                v = next((R.at(ev[1], Q) for ev in reversed(p.ev) if ev[0] == 'loop' and R.at(ev[1], Q) is not None), None)
            if v is not None:
                env[v] = var[name]
        return env

    def match(self, out, p, env, text, cfgs, modes, vars_, h):
        """the outcome is one of the configurations"""
        R = self.R
        kind, a, vals = out
        if kind == 'loop':
            pos, x, e = R.spots[a]
            get = lambda Q: (R.given(vals, Q) if R.given(vals, Q) is not None else R.at(a, Q)) if Q is not None else None
            for c in cfgs:
                if c.end or c.mode not in modes.get(a, ()):
                    continue
                if not R.arrived(get(R.P), get(x), get(e), (x is not None, e is not None), text, c.k, env):
                    continue
                if all(n not in vars_ or R.at(a, vars_[n]) is None or value(get(vars_[n]), env) == v for n, v in c.var.items()):
                    return True
            return False
        c = cfgs[-1]
        if kind == 'throw':
            return c.end == 'throw' and a == self.spec.error
        return c.end == 'ret' and self.spec.returned(p, c, text, env)

    def judge(self, modes, vars_, entry, few=False):
        """first violation under an assignment of modes and variables; entry: (environment, input) for texts"""
        R = self.R
        S = self.spec
        self.count = 0
        first = list(R.segments(None))
        some = lambda ts: ts[::max(1, len(ts) // 25)] if few else ts
        for text in some(S.texts(None)):
            for env0, inp in entry(text):
                cfgs = list(S.start(text, inp))
                hit, memo = False, {}
                for p, i in first:
                    if not R.facts.holds(p, env0, memo):
                        continue
                    hit = True
                    self.count += 1
                    out = self.outcome(p, i)
                    if not self.match(out, p, env0, text, cfgs, modes, vars_, None):
                        return {'start': 'at %s: %s, not %s' % (said(text), told(out), cfgs)}
                if not hit:
                    return {'start': 'nothing is done at %s' % said(text)}
        for h in R.heads:
            for m in modes.get(h, ()):
                segs = list(R.segments(h))
                for text in some(S.texts(m)):
                    if not text and R.spots[h][1] is not None and R.spots[h][2] is None:
                        continue                         # the end is left for at once
                    for var in S.domain(m, text):
                        cfgs = list(S.run(Config(m, 0, **var), text))
                        hit, kept = False, []
                        for p, i in segs:
                            env = self.env(h, text, var, vars_, p)
                            env.update(S.fixed(p))
                            env, memo = next(((e, c) for e, c in kept if e == env), (env, None))
                            if memo is None:
                                memo = {}
                                kept.append((env, memo))
                            if not R.facts.holds(p, env, memo):
                                continue
                            hit = True
                            self.count += 1
                            out = self.outcome(p, i)
                            if not self.match(out, p, env, text, cfgs, modes, vars_, h):
                                return {m: 'at %s with %s: %s, not %s' % (said(text), var, told(out), cfgs)}
                        if not hit:
                            return {m: 'nothing is done at %s with %s' % (said(text), var)}
        return {}

    def best(self, entry, limit=4000):
        """none if there is an assignment without a violation, or the first one of the assignment that goes furthest"""
        R, S = self.R, self.spec
        if not R.heads:
            return self.judge({}, {}, entry)
        live = self.live()
        names = list(S.vars)
        cand = [Q for Q in live]
        best = None
        assigns = []
        for qs in permutations(cand, min(len(names), len(cand))) if names else [()]:
            if len(cand) < len(names):
                for ns in permutations(names, len(cand)):
                    assigns.append(dict(zip(ns, qs)))
            else:
                assigns.append(dict(zip(names, qs)))
        if not assigns:
            assigns = [{}]
        assigns = [a for a in assigns if all(S.fits(n, Q) for n, Q in a.items())] or [{}]
        most = -1
        for ms in product([(m,) for m in S.modes], repeat=len(R.heads)):
            modes = dict(zip(R.heads, ms))
            for vars_ in assigns:
                limit -= 1
                if limit < 0:
                    return best
                b = self.judge(modes, vars_, entry, True) or self.judge(modes, vars_, entry)
                if not b:
                    return b
                if self.count > most:
                    best, most = b, self.count
        return best

    def live(self):
        """places that carry something else than the position round a loop and are looked at"""
        R = self.R
        out = []
        for h in R.heads:
            for Q in R.places(h):
                if Q in (R.V, R.P) or Q in R.spots[h][1:] or Q in out:
                    continue
                ph = R.L.phi(h, Q)
                used = R.used(ph) or any(mentions(v, ph) for p in R.I.paths if isinstance(p.ret, dict) for v in p.ret.values())
                if used:
                    out.append(Q)
        return out


def mentions(v, x):
    if v == x:
        return True
    if isinstance(v, dict):
        return any(mentions(w, x) for w in v.values())
    return isinstance(v, (tuple, list)) and any(mentions(w, x) for w in v)


def said(text):
    return repr(''.join(chr(c) if 31 < c < 127 else '\\x%02x' % (c & 0xff) for c in text))


def told(out):
    if out[0] == 'loop':
        return 'goes on with ' + ', '.join('%s=%s' % (show(k), show(v)[:40]) for k, v in sorted(out[2].items(), key=repr))
    return out[0]
