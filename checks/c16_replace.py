"""C16: replace writes the input with each match replaced.

Every overload is cut at the header of the loop that looks tokens up. Along each piece the calls of lookup, the
pieces written (calls of std::copy with the output iterator threaded through them, or appends to the returned
string) and the state kept across iterations are compared with what has to happen: after a lookup that found a
token, the text since the last match followed by the replacement for its id (or the matched text when a map has no
entry for it); after the lookup that reports the end of the input, the rest of the text.
"""
from common import *
from loops import Loops
import itertools

ID = 'C16'


def where_(f):
    return '%s:%s' % (f['file'].split('include/')[-1], f['l'])


def kind(F, f):
    """(input, fmt, result, char type) of an overload from its parameter types"""
    ps = f['params']
    t = bare(ps[-1]['t'])
    if 'map<' in t:
        inner = t[t.index(',') + 1:]
        inner = inner.strip()
        fn = '(*)' in inner
        text = 'pointer' if inner.startswith(('const char *', 'const wchar_t *')) else 'string'
        fmt = ('map of functions returning ' if fn else 'map of ') + ('pointers' if text == 'pointer' else 'strings')
    elif t.endswith('*'):
        fmt, text, fn = 'pointer', 'pointer', False
    else:
        fmt, text, fn = 'string', 'string', False
    first = bare(ps[0]['t'])
    if len(ps) == 5:
        src = 'iterators'
    else:
        src = 'pointer' if first.endswith('*') else 'string'
    return src, fmt, text, 'map' in fmt, fn


class Overload:
    def __init__(self, ctx, F, f):
        self.ctx, self.F, self.f = ctx, F, f
        ctx.analysed(f)
        I = Interp(Lower(F, lambda g: g.get('n') not in ('lookup',), allcalls=True).lower(f), unroll=-1)
        ctx.inlined(F, I.g)
        I.run()
        ctx.count('partitions', len(I.paths))
        self.I, self.L = I, Loops(I)
        self.src, self.fmt, self.text, self.map, self.fn = kind(F, f)
        self.name = '%s, %s' % (self.src, self.fmt)
        ps = f['params']
        self.fmtname = ps[-1]['n']
        self.smname = ps[-2]['n']
        self.stream = len(ps) == 5
        self.out = ('in', ('v', ps[0]['n'])) if self.stream else None
        self.paths = [p for p in I.paths if p.end[0] != 'unreach']
        self.main = set()
        for p in self.paths:
            if p.end[0] == 'throw':
                raise CheckError('%s: replace throws' % where_(f))
            if p.end[0] == 'back':
                h = p.end[1]
                k = max(i for i, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == h)
                if any(e[0] == 'call' and e[1]['n'] in ('lookup', 'copy') for e in p.ev[k:]):
                    self.main.add(h)
        if not self.main:
            raise CheckError('%s: no loop that looks tokens up found' % where_(f))
        self.results = None
        for p in self.paths:
            for e in p.ev:
                if e[0] == 'call' and e[1]['n'] == 'lookup':
                    a = e[3][-1]
                    if a[0] != 'addr':
                        raise CheckError('%s: lookup is not given a local match_results' % where_(f))
                    if self.results not in (None, a[1]):
                        raise CheckError('%s: two match_results objects' % where_(f))
                    self.results = a[1]
        if self.results is None:
            raise CheckError('%s: lookup is not called' % where_(f))

    # ---- the texts involved
    def ends(self, p):
        """(start, end) of the input"""
        ps = self.f['params']
        if self.src == 'iterators':
            return ('in', ('v', ps[1]['n'])), ('in', ('v', ps[2]['n']))
        P = ('v', ps[0]['n'])
        if self.src == 'string':
            return ('begin', P), add(('begin', P), ('size', ('in', P)), 1)
        return ('in', P), None

    def terminator(self, p, start, v):
        """v is the position of the 0 that ends the text starting at `start`"""
        if v[0] != 'phi':
            return False
        h, P = v[1], v[2]
        ents = [(q, k, ev) for (q, k, ev) in self.L.entries(h)]
        mine = [e for e in p.ev if e[0] == 'loop' and e[1] == h]
        if not mine or P not in mine[-1][2] or mine[-1][2][P] != start:
            return False
        for q in self.paths:
            if q.end == ('back', h):
                if q.ret.get(P) != add(v, 1, 1):
                    return False
                if self.zero(q, v) is not False:
                    return False
        return self.zero(p, v) is True

    def zero(self, p, v):
        a, pol = atom_eq(('in', ('d', v)), 0)
        r = p.facts.query(a)
        return None if r is None else (r == pol)

    def carried(self, h):
        return self.I.classes[self.L.block[h]]

    def isend(self, p, v):
        start, end = self.ends(p)
        if end is not None:
            return v == end
        return self.terminator(p, start, v)

    # ---- one piece written
    def piece(self, p, args):
        """normal form of what append(args) / copy(args…) writes"""
        args = tuple(a for a in args)
        if len(args) == 1:
            return ('rep', args[0])
        a, b = args[0], args[1]
        if a[0] == 'begin':
            w = self.I.val(p, a[1])
            if b == add(a, ('size', w), 1):
                return ('rep', w)
        if b != a and self.terminator(p, a, b):
            # a whole zero-terminated text, unless it is (a part of) the input
            start, end = self.ends(p)
            if a != start:
                return ('rep', a)
        return ('text', a, b)

    def written(self, p, k0, k1, basis):
        """pieces written between events k0 and k1, and a complaint"""
        if self.stream:
            cur, out = basis, []
            for e in p.ev[k0:k1]:
                if e[0] == 'call' and e[1]['n'] in ('copy',):
                    if len(e[3]) != 3:
                        raise CheckError('%s: copy with %d arguments' % (where_(self.f), len(e[3])))
                    if cur is None or e[3][2] != cur:
                        return None, 'writes with an output iterator that does not follow on from the last piece written: %s' % show(e[3][2])
                    cur = e[4]
                    out.append((e, self.piece(p, e[3][:2])))
                elif e[0] == 'call' and e[1]['n'] not in ('lookup', 'indirect', 'find') and any(mentions_out(a, cur) for a in e[3]):
                    raise CheckError('%s: output written by %s' % (where_(self.f), e[1]['n']))
            return out, cur
        raise CheckError('not a stream overload')

    def chain(self, v, base):
        """arguments of the appends that lead from base to v"""
        out = []
        while v != base:
            if v[0] == 'mut' and v[1] in ('append', 'operator+='):
                out.append(v[3])
                v = v[2]
            else:
                raise CheckError('%s: the returned string is built in a way not understood: %s' % (where_(self.f), show(v)[:200]))
        return out[::-1]


def mentions_out(v, w):
    if v == w:
        return True
    return isinstance(v, tuple) and any(mentions_out(x, w) for x in v)


def merge(pieces):
    out = []
    for q in pieces:
        if q[0] == 'text' and q[1] == q[2]:
            continue
        if out and q[0] == 'text' and out[-1][0] == 'text' and out[-1][2] == q[1]:
            out[-1] = ('text', out[-1][1], q[2])
            if out[-1][1] == out[-1][2]:
                out.pop()
            continue
        out.append(q)
    return out


def shown(pieces):
    return ' + '.join('text[%s, %s)' % (show(q[1]), show(q[2])) if q[0] == 'text' else 'replacement %s' % show(q[1])[:120] for q in pieces) or 'nothing'


class Judge:
    def __init__(self, O):
        self.O, self.I, self.f = O, O.I, O.f

    def fieldsof(self, v):
        """the result fields of the value of the match_results object"""
        return {n: self.I.proj(v, 'f', n) for n in ('id', 'first', 'second', 'eoi', 'state', 'bol')}

    def atheader(self, h):
        R = self.O.results
        return {n: ('phi', h, ('f', R, n)) for n in ('id', 'first', 'second', 'eoi', 'state', 'bol')}

    def replacement(self, p, cur):
        """what has to be written for the token `cur` on partition p (None: the partition does not decide it)"""
        O = self.O
        fmt = ('v', O.fmtname)
        if not O.map:
            return [('rep', ('in', fmt))]
        key = ('m', 'find', ('in', fmt), (cur['id'],))
        a, pol = atom_eq(add(('begin', fmt), ('size', ('in', fmt)), 1), key)
        r = p.facts.query(a)
        if r is None:
            return None
        if r == pol:
            return [('text', cur['first'], cur['second'])]
        v = ('in', ('f', ('d', key), 'second'))
        if not O.fn:
            return [('rep', v)]
        for e in p.ev:
            if e[0] == 'call' and e[1]['n'] == 'indirect' and tuple(e[3]) == (cur['first'], cur['second']) and e[7] == v:
                return [('rep', e[4])]
        return None

    def run(self):
        """candidate for the value kept as 'end of the last match' at the header, then every piece"""
        O = self.O
        segs = []
        for p in O.paths:
            cuts = [(-1, None)] + [(k, e[1]) for k, e in enumerate(p.ev) if e[0] == 'loop' and e[1] in O.main]
            last_k, last_h = cuts[-1]
            if p.end[0] == 'back' and p.end[1] not in O.main:
                final = None            # ends inside a scan: covered by the partitions that leave it
            elif p.end[0] == 'back':
                final = (len(p.ev), ('head', p.end[1]), {P: v for P, v in p.ret.items()})
            else:
                final = (len(p.ev), ('ret',), None)
            for i, (k, h) in enumerate(cuts):
                if i + 1 < len(cuts):
                    nk, nh = cuts[i + 1]
                    segs.append((p, k + 1, h, nk, ('head', nh), p.ev[nk][2]))
                elif final is not None:
                    segs.append((p, k + 1, h, final[0], final[1], final[2]))
        seen, uniq = set(), []
        for s in segs:
            key = (s[2], repr(s[4]), repr([e for e in s[0].ev[s[1]:s[3]] if e[0] in ('call', 'write')]), repr(s[5]),
                   repr(s[0].ret) if s[4] == ('ret',) else '', repr(sorted(map(repr, s[0].facts.atoms.items()))))
            if key not in seen:
                seen.add(key)
                uniq.append(s)
        # phase at each header: has the result of the last lookup been dealt with?
        best = None
        opts = []
        for h in sorted(O.main):
            cand = sorted({O.L.phi(h, P) for P in O.carried(h)}, key=repr)
            # every scalar place carried round the loop, plus the end of the previous match itself
            cand += [('phi', h, ('f', O.results, 'second')), ('phi', h, ('f', O.results, 'first'))]
            opts.append([(h, ph, c) for ph in ('fresh', 'done') for c in dict.fromkeys(cand)])
        for combo in itertools.product(*opts):
            inv = {h: (ph, c) for h, ph, c in combo}
            bad = []
            for s in uniq:
                bad += self.segment(s, inv)
            if best is None or len(bad) < len(best[0]):
                best = (bad, inv)
            if not bad:
                break
        self.segs = uniq
        return best

    def valueat(self, term, h, vals, p):
        """value of the header term on arrival"""
        P = term[2]
        if P in vals:
            return vals[P]
        Q, path = P, []
        while Q[0] == 'f':
            path.append(Q[2])
            Q = Q[1]
            if Q in vals:
                v = vals[Q]
                for n in reversed(path):
                    v = self.I.proj(v, 'f', n)
                return v
        return term

    def segment(self, s, inv):
        p, k0, h, k1, end, vals = s
        O, I = self.O, self.I
        bad = []
        start, stop = O.ends(p)
        # --- beginning
        if h is None:
            handled, cur, last = True, None, start
            basis = O.out if O.stream else ('empty',)
        else:
            ph, c = inv[h]
            cur, last = self.atheader(h), c
            handled = ph == 'done'
            outP = self.outplace()
            basis = O.L.phi(h, outP) if outP is not None and outP in O.carried(h) else (O.out if O.stream else None)
        expect = []
        first = h is None

        def finish_token():
            nonlocal last, handled
            v = p.facts.query(atom_eq(cur['id'], 0)[0])
            a, pol = atom_eq(cur['id'], 0)
            if v is None:
                return 'goes on without finding out whether the end of the input was reached'
            if v == pol:
                return 'goes on after the end of the input was reported'
            r = self.replacement(p, cur)
            if r is None:
                return 'writes no replacement that follows from the id of the match'
            expect.extend([('text', last, cur['first'])] + r)
            last, handled = cur['second'], True
            return None

        for i, e in enumerate(p.ev[k0:k1], k0):
            if e[0] == 'call' and e[1]['n'] == 'lookup':
                if not handled:
                    why = finish_token()
                    if why:
                        return [('pieces', why)]
                if e[3][0] != ('in', ('v', O.smname)) and e[3][0] != ('addr', ('v', O.smname)):
                    # a state machine passed by reference shows as its value or its place
                    bad.append(('lookups', 'looks up in %s' % show(e[3][0])))
                pre = next((x for x in p.ev[i + 1:k1] if x[0] == 'pre' and x[1][0] == 'hv' and x[1][2] == O.results), None)
                if pre is None:
                    raise CheckError('%s: no record of the results before a lookup' % where_(self.f))
                b = self.fieldsof(pre[2])
                if first:
                    if b['second'] != start or not O.isend(p, b['eoi']) or b['state'] != 0 or b['bol'] not in (1, True):
                        bad.append(('lookups', 'the first lookup does not begin at the start of the whole input in state 0: second=%s eoi=%s state=%s bol=%s'
                                    % tuple(show(b[n]) for n in ('second', 'eoi', 'state', 'bol'))))
                    first = False
                elif cur is not None and any(b[n] != cur[n] for n in ('second', 'eoi', 'state', 'bol')):
                    bad.append(('lookups', 'changes the results between two lookups'))
                cur = self.fieldsof(pre[1])
                handled = False
        if first and end != ('ret',) and h is None:
            # nothing looked up yet: the results must still be fresh at the header
            b = {n: self.valueat(('phi', end[1], ('f', O.results, n)), end[1], vals, p) for n in ('second', 'eoi', 'state', 'bol')}
            if b['second'] != start or not O.isend(p, b['eoi']) or b['state'] != 0 or b['bol'] not in (1, True):
                bad.append(('lookups', 'the first lookup does not begin at the start of the whole input in state 0'))
        # --- end
        ended = None
        if end == ('ret',):
            if handled or cur is None:
                return bad + [('pieces', 'returns before the end of the input was reported')]
            a, pol = atom_eq(cur['id'], 0)
            r = p.facts.query(a)
            if r is None or r != pol:
                return bad + [('pieces', 'returns although the last lookup may have found a token')]
            ended = True
        else:
            ph, c = inv[end[1]]
            if ph == 'done' and not handled:
                why = finish_token()
                if why:
                    return bad + [('pieces', why)]
            if ph == 'fresh' and (handled or cur is None):
                return bad + [('pieces', 'deals with a match twice')]
            if self.valueat(c, end[1], vals, p) != last:
                bad.append(('pieces', 'the text still to be written begins at %s, not at the end of the last match %s'
                            % (show(self.valueat(c, end[1], vals, p)), show(last))))
            if cur is not None:
                now = {n: self.valueat(('phi', end[1], ('f', O.results, n)), end[1], vals, p) for n in ('id', 'first', 'second', 'eoi', 'state', 'bol')}
                if any(now[n] != cur[n] for n in now):
                    bad.append(('lookups', 'changes the results between two lookups'))
        # --- what was written
        if O.stream:
            got, cursor = O.written(p, k0, k1, basis)
            if got is None:
                return bad + [('threaded', cursor)]
            pieces = [q for e, q in got]
            after = cursor
            if end == ('ret',):
                if p.ret != after:
                    bad.append(('threaded', 'returns %s, not the output iterator after the last piece written' % show(p.ret)))
            else:
                outP = self.outplace()
                if outP in vals:
                    if vals[outP] != after:
                        bad.append(('threaded', 'carries on with %s, not the output iterator after the last piece written' % show(vals[outP])))
                elif after != basis:
                    bad.append(('threaded', 'carries on without the output iterator after the last piece written'))
        else:
            outP = self.outplace()
            if end == ('ret',):
                v = p.ret
            else:
                v = vals.get(outP, basis)
            pieces = [O.piece(p, a) for a in O.chain(v, basis)]
        pieces = merge(pieces)
        want = merge(expect)
        if ended:
            # the rest of the input: lookup reports its end with first, second and eoi all there
            tails = [merge(expect + [('text', last, t)]) for t in (cur['first'], cur['second'], cur['eoi'])]
            if pieces in tails:
                pieces = want = None
            elif len(pieces) and pieces[-1][0] == 'text' and O.isend(p, pieces[-1][2]):
                pieces = want = None if merge(expect + [('text', last, pieces[-1][2])]) == pieces else 0
            else:
                want = tails[0]
        if pieces != want:
            bad.append(('pieces', 'writes %s where %s is due' % (shown(pieces or []), shown(want or []))))
        return bad

    def outplace(self):
        """the place that holds the output across iterations"""
        if hasattr(self, '_outP'):
            return self._outP
        O = self.O
        r = None
        if O.stream:
            r = ('v', O.f['params'][0]['n'])
            # a helper variable may carry the iterator instead
            cands = {P for h in O.main for P in O.carried(h) for p in O.paths for e in p.ev
                     if e[0] == 'call' and e[1]['n'] == 'copy' and len(e[3]) == 3 and e[3][2] == O.L.phi(h, P)}
            if len(cands) == 1:
                r = cands.pop()
        else:
            cands = set()
            for p in O.paths:
                if p.end[0] == 'ret':
                    v = p.ret
                    while isinstance(v, tuple) and v[0] == 'mut':
                        v = v[2]
                    if v[0] == 'phi':
                        cands.add(v[2])
            if len(cands) == 1:
                r = cands.pop()
            elif len(cands) > 1:
                raise CheckError('%s: several strings are returned' % where_(O.f))
        self._outP = r
        return r


def run(ctx):
    F = ctx.facts('d_core')
    ctx.rule('pieces', 'for every match the text since the previous one and then its replacement are written, and at the end of the input the text that is left: nothing is lost, doubled or out of order', 18)
    ctx.rule('lookups', 'tokens are looked up one after the other from the start of the whole input, in state 0, with nothing changed in between', 18)
    ctx.rule('threaded', 'each piece is written where the last one ended and the iterator returned is the one after everything written', 6)
    fs = sorted([f for f in F.fns.values() if f['q'] == 'lexertl::replace' and 'body' in f], key=lambda f: f['l'])
    if len(fs) != 18:
        raise CheckError('%d overloads of replace instantiated, 18 expected' % len(fs))
    for f in fs:
        O = Overload(ctx, F, f)
        J = Judge(O)
        bad, inv = J.run()
        ctx.count('pieces of code between lookups', len(J.segs))
        for rule in ('pieces', 'lookups') + (('threaded',) if O.stream else ()):
            why = [w for r, w in bad if r == rule]
            ctx.check(not why, rule, O.name, where_(f), '; '.join(dict.fromkeys(why))[:600])
        other = [w for r, w in bad if r == 'threaded' and not O.stream]
        if other:
            raise CheckError(other[0])
    ctx.assume('std::copy, std::basic_string::append and std::map::find behave as the C++ standard says; a replacement function does not move the '
               'iterators it is given by reference', 'lookup reports the end of the input as id 0 with an empty token at the end (C11, C21)')
