"""Strong exception guarantee as a dataflow problem: on no control-flow path is a call or throw that can raise an
error reached after the protected object was written.

State per program point: a set of pairs (fields of the object possibly written, calls known to have succeeded).
A call that already succeeded with the same arguments cannot newly fail as long as nothing it reads was written since.
"""
from facts import CheckError, nodes
from ir import Lower, bare

THROWING_STD = {'at', 'stoi', 'stol', 'stoul', 'stoll', 'stoull', 'stod', 'rethrow_exception', 'throw_with_nested', 'value', 'use_facet_'}
PTR_M = {'begin', 'end', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'data', 'c_str', 'front', 'back', 'get', 'base'}


class Effects:
    """interprocedural may-throw / may-write-member / may-read-member summaries over the call graph"""

    def __init__(self, F):
        self.F = F
        self._t, self._r, self._w = {}, {}, {}

    def writes(self, i, stack=()):
        """fields of *this method i may write (directly, through references, or through further methods)"""
        if i in self._w:
            return self._w[i]
        f = self.F.fns.get(i)
        if f is None or 'body' not in f or f.get('const') or f.get('static') or i in stack:
            return frozenset()
        A = Atomic(self.F, f, ('v', 'this'), lambda g: False, self, None)
        A.stack = stack + (i,)
        A.run()
        r = frozenset(A.writes)
        if not stack:
            self._w[i] = r
        return r

    def callees(self, f):
        for e in [f.get('body')] + [i.get('e') for i in f.get('inits', [])]:
            if e is None:
                continue
            for x in nodes(e):
                i = x.get('fn')
                if i is None:
                    continue
                yield x, i
                if x.get('vdisp'):
                    for o in self.F.overriders.get(i, []):
                        yield x, o

    def throws(self, i, stack=()):
        """a witness (list of function names down to the throw) or None"""
        if i in self._t:
            return self._t[i]
        f = self.F.fns.get(i)
        if f is None or ('body' not in f and not f.get('inits')) or i in stack:
            return None
        w = None
        for e in [f.get('body')] + [k.get('e') for k in f.get('inits', [])]:
            for x in (nodes(e) if e else ()):
                if x['k'] == 'throw':
                    w = [f['n'] + ':%s' % x.get('l', '')]
                elif x['k'] in ('call', 'mcall') and x.get('n') in THROWING_STD and (x.get('q') or '').startswith('std::'):
                    w = [f['n'], x['n']]
                if w:
                    break
            if w:
                break
        if w is None:
            for x, j in self.callees(f):
                s = self.throws(j, stack + (i,))
                if s:
                    w = [f['n']] + s
                    break
        if w is not None or not stack:
            self._t[i] = w
        return w

    def members(self, i, stack=()):
        """fields of *this mentioned by method i, through further methods of the same object"""
        if i in self._r:
            return self._r[i]
        f = self.F.fns.get(i)
        if f is None or 'body' not in f or i in stack:
            return frozenset()
        out = set()
        for x in nodes(f['body']):
            if x['k'] == 'mem' and x['b']['k'] == 'this':
                out.add(x['n'])
            if x['k'] == 'this':
                pass
        for x, j in self.callees(f):
            g = self.F.fns.get(j)
            if g is not None and g.get('cls') == f.get('cls'):
                out |= self.members(j, stack + (i,))
        r = frozenset(out)
        if not stack:
            self._r[i] = r
        return r


class Atomic:
    def __init__(self, F, fn, root, inline, effects, ctx):
        self.F, self.E, self.root = F, effects, root
        self.g = Lower(F, inline, allcalls=True).lower(fn)
        self.stack = ()
        if ctx:
            ctx.analysed(fn)
            ctx.inlined(F, self.g)
        self.ctx = ctx
        self.asg = {}
        for b in self.g.blocks:
            for i in b.ins:
                if i[0] == 'asg' and i[1][0] == 'v':
                    self.asg.setdefault(i[1][1], []).append(i[2])
                elif i[0] == 'call' and i[1] is not None:
                    self.asg.setdefault(i[1][1], []).append(('callres', i[2], i[3], tuple(i[4])))

    # what a place / pointer may reach: set of field names of the root ('*' = the object itself)
    def reach(self, P, seen=frozenset()):
        if P == self.root:
            return {'*'}
        if P[0] == 'f':
            return {P[2]} if P[1] == self.root else ({P[2]} if self.reach(P[1], seen) == {'*'} else self.reach(P[1], seen))
        if P[0] in ('i', 'back'):
            return self.reach(P[1], seen)
        if P[0] == 'd':
            return self.points(P[1], seen)
        return set()

    def points(self, E, seen=frozenset()):
        if not isinstance(E, tuple):
            return set()
        if E[0] == 'addr':
            return self.reach(E[1], seen)
        if E[0] == 'ld':
            P = E[1]
            if P[0] == 'v' and P[1] in self.asg and P[1] not in seen:
                out = set()
                for v in self.asg[P[1]]:
                    out |= self.points(v, seen | {P[1]})
                return out
            if P[0] in ('f', 'i', 'd', 'back'):
                # an iterator/pointer held in a local aggregate
                return self.points(('ld', P[1]), seen) if P[0] in ('f', 'i') and P[1][0] == 'v' else set()
            return set()
        if E[0] == 'm' and (E[1] in PTR_M or E[1].startswith('&')):
            return self.reach(E[2], seen)
        if E[0] in ('bin', 'cast', 'new', 'mk', 'pure', 'init'):
            out = set()
            for x in E[1:]:
                if isinstance(x, tuple):
                    if x and isinstance(x[0], str):
                        out |= self.points(x, seen)
                    else:
                        for y in x:
                            out |= self.points(y, seen)
            return out
        if E[0] == 'callres':
            info, P = E[1], E[2]
            if P is not None and info['n'] in ('insert', 'emplace', 'erase', 'begin', 'end', 'find'):
                return self.reach(P, seen)
            if info['kind'] in ('repo', 'repoconst') and (P is not None):
                rt = (self.F.fns.get(info.get('fn')) or {}).get('rt', '')
                if rt.rstrip().endswith(('&', '*')) and not rt.strip().startswith('const '):
                    return self.reach(P, seen)
            return set()
        return set()

    # canonical value of an argument, None when it may differ between two executions
    def canon(self, E, seen=()):
        if isinstance(E, int) or isinstance(E, str):
            return E
        if not isinstance(E, tuple):
            return E
        if E and E[0] == 'ld' and E[1][0] == 'v':
            u = E[1][1]
            a = self.asg.get(u)
            if a is None:
                return E
            if len(a) > 1 or u in seen:
                return None
            return self.canon(a[0], seen + (u,))
        if E and E[0] == 'd':
            x = self.canon(E[1], seen)
            return None if x is None else (x[1] if isinstance(x, tuple) and x[0] == 'addr' else ('d', x))
        if E and E[0] == 'addr' and E[1][0] == 'v' and '#' in E[1][1]:
            x = self.canon(('ld', E[1]), seen)
            return None if x is None else ('tmpaddr', x)
        if E and E[0] == 'ld':
            if self.reach(E[1]):
                return ('ldroot', E[1]) if False else None
            x = self.canon(E[1], seen)
            if x is None:
                return None
            return self.canon(('ld', x), seen) if x != E[1] and x[0] == 'v' else ('ld', x)
        if E and E[0] == 'callres':
            # a free or static function of unchanged arguments (the library has no mutable static state, C12)
            f = self.F.fns.get(E[1].get('fn'))
            if f is None or E[2] is not None or (f.get('cls') and not f.get('static')) or any(a[0] == 'addr' for a in E[3]):
                return None
            a = [self.canon(x, seen) for x in E[3]]
            return None if any(x is None for x in a) else ('fn', f['id'], tuple(a))
        out = []
        for x in E:
            y = self.canon(x, seen) if isinstance(x, tuple) else x
            if y is None:
                return None
            out.append(y)
        return tuple(out)

    def key(self, i):
        args = [self.canon(a) for a in i[4]]
        if any(a is None for a in args):
            return None
        P = i[3]
        if P is not None:
            P = self.canon(P) if P != self.root else P
            if P is None:
                return None
        return (i[2].get('fn'), P, tuple(args))

    def wname(self, s):
        return ', '.join(sorted(s))

    def run(self):
        """yields (kind, loc, detail, ok) for every raising point; kind 'throw'/'call'"""
        res = {}
        start = (frozenset(), frozenset())
        state = {0: {start}}
        work = [0]
        self.writes = set()
        while work:
            b = work.pop()
            blk = self.g.blocks[b]
            cur = set(state[b])
            for i in blk.ins:
                cur = self.step(cur, i, res)
            t = blk.term
            if t is not None and t[0] == 'ret':
                self.exits = getattr(self, 'exits', set()) | {d for d, _ in cur}
            if t is None or t[0] in ('unreach', 'ret'):
                continue
            if t[0] == 'throw':
                for d, _ in cur:
                    self.note(res, ('throw', t[3]), not d, 'throws after writing %s' % self.wname(d))
                continue
            succ = [t[1]] if t[0] == 'jmp' else [t[2], t[3]] if t[0] == 'br' else [x for _, x in t[2]] + [t[3]]
            for s in succ:
                new = cur - state.get(s, set())
                if new:
                    state.setdefault(s, set()).update(new)
                    if len(state[s]) > 4000:
                        raise CheckError('too many write states in ' + self.g.fn['q'])
                    work.append(s)
        return res

    def note(self, res, k, ok, detail):
        if k not in res or (res[k][0] and not ok):
            res[k] = (ok, detail)

    def step(self, cur, i, res):
        if i[0] == 'asg':
            w = self.reach(i[1]) if i[1][0] != 'v' or i[1] == self.root else set()
            if w:
                self.writes |= w
                return {(d | w, s) for d, s in cur}
            return cur
        _, dest, info, P, args, loc = i
        k = info['kind']
        w = set()
        if P is not None and k == 'repo' and P == self.root:
            w |= self.E.writes(info['fn'], self.stack)
        elif P is not None and k in ('mut', 'repo', 'in', 'out'):
            w |= self.reach(P)
        if k in ('mut', 'ext', 'repo', 'repoconst', 'in', 'indirect'):
            for a in args:
                if a[0] == 'addr':
                    w |= self.reach(a[1])
        thr = self.E.throws(info['fn']) if info.get('fn') is not None else None
        if thr is None and k in ('mut', 'ext') and info['n'] in THROWING_STD:
            thr = [info['n']]
        if thr:
            key = self.key(i)
            reads = self.E.members(info['fn']) if info.get('fn') is not None else frozenset('*')
            out = set()
            for d, s in cur:
                ok = not d or (key is not None and key in s and not (d & reads) and '*' not in d)
                self.note(res, ('call', loc), ok, '%s can throw (%s) after %s was written' % (info['n'], ' > '.join(thr), self.wname(d)))
                out.add((d | w, s | {key} if key is not None else s))
            cur = out
        elif w:
            cur = {(d | w, s) for d, s in cur}
        if w:
            self.writes |= w
        # what may have changed invalidates nothing else: keys mention only unmodified inputs
        return cur
