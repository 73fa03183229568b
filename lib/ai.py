"""Path-partitioned abstract interpretation of the lowered CFG over a Herbrand (symbolic value) domain.

Nothing is executed and no solver is used: a value is a term over the function's inputs, a branch whose condition
is decided by the terms already assumed on the partition is followed one way, every loop is entered once with all
places it may modify replaced by an unknown (`phi`) and left from there, and a partition that comes back to the
loop head ends with the values it would carry round (`back`).  The set of places a loop modifies is found by
iterating to a fixpoint.

Values: int | ('in',P) | ('phi',h,P) | ('hv',k,P) | ('res',k,name) | ('addr',P) | ('begin',P) | ('lin',((v,k),..),c)
        ('cmp',atom,pol) | ('op',op,a,b) | ('cast',T,v) | ('m',name,v,args) | ('pure',name,args) | ('push',v,x)
        ('empty',) | ('upd',v,((sub,val),..)) | ('fld',v,n) | ('idx',v,i) | ('new',T,args) | ('alloc',k,T,args) ...
"""
from facts import CheckError

INTW = {'bool': (0, 1), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-32768, 32767),
        'unsigned short': (0, 65535), 'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1),
        'unsigned long': (0, 2**64 - 1), 'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1),
        'wchar_t': (-2**31, 2**31 - 1), 'char16_t': (0, 65535), 'char32_t': (0, 2**32 - 1), 'char8_t': (0, 255)}


class Cap(CheckError):
    pass


# ---------------------------------------------------------------- linear terms
def lin(v):
    """-> (dict term->coef, const)"""
    if isinstance(v, int):
        return {}, v
    if v[0] == 'lin':
        return dict(v[1]), v[2]
    return {v: 1}, 0


def mklin(t, c):
    t = {k: n for k, n in t.items() if n}
    if not t:
        return c
    if c == 0 and len(t) == 1:
        (k, n), = t.items()
        if n == 1:
            return k
    return ('lin', tuple(sorted(t.items(), key=repr)), c)


def add(a, b, s=1):
    ta, ca = lin(a)
    tb, cb = lin(b)
    for k, n in tb.items():
        ta[k] = ta.get(k, 0) + s * n
    return mklin(ta, ca + s * cb)


def atom_eq(a, b):
    """canonical atom for a == b -> (atom, pol) or bool"""
    d = add(a, b, -1)
    if isinstance(d, int):
        return d == 0
    if isinstance(a, int) and not isinstance(b, int):
        a, b = b, a
    if isinstance(b, int) and not isinstance(a, int):
        if a[0] == 'cmp' and b in (0, 1):
            return (a[1], a[2] if b else not a[2])
        if a[0] in ('addr', 'alloc', 'new', 'str', 'begin') and b == 0:
            return False
    t, c = lin(d)
    # sign-canonical: smallest term positive
    k0 = sorted(t, key=repr)[0]
    if t[k0] < 0:
        t = {k: -n for k, n in t.items()}
        c = -c
    return (('eq', tuple(sorted(t.items(), key=repr)), c), True)


def nonneg(k):
    return k[0] in ('size',) or (k[0] == 'in' and False)


def atom_lt(a, b):
    """a < b"""
    d = add(a, b, -1)
    if isinstance(d, int):
        return d < 0
    t, c = lin(d)
    ks = sorted(t, key=repr)
    if len(ks) == 1 and ks[0][0] == 'size':
        # size < 1 <=> size == 0 ; 0 < size <=> size != 0
        k = ks[0]
        if t[k] == 1 and c == -1:
            return (('eq', ((k, 1),), 0), True)
        if t[k] == 1 and c >= 0:
            return False
        if t[k] == -1 and c == 0:
            return (('eq', ((k, 1),), 0), False)
        if t[k] == -1 and c < 0:
            return True
    if t[ks[0]] < 0:
        # d < 0  <=> not (-d < 1)   (integers): -d-1 < 0 negated
        t = {k: -n for k, n in t.items()}
        return (('lt', tuple(sorted(t.items(), key=repr)), -c - 1), False)
    return (('lt', tuple(sorted(t.items(), key=repr)), c), True)


class Facts_:
    """constraints assumed on a partition"""
    __slots__ = ('atoms', 'rng', 'ne')

    def __init__(self, o=None):
        self.atoms = dict(o.atoms) if o else {}
        self.rng = dict(o.rng) if o else {}
        self.ne = dict(o.ne) if o else {}

    def query(self, atom):
        if atom in self.atoms:
            return self.atoms[atom]
        if atom[0] in ('eq', 'lt'):
            key, c = atom[1], atom[2]
            lo, hi = self.rng.get(key, (None, None))
            if len(key) == 1 and key[0][1] == 1 and key[0][0][0] == 'size':
                lo = 0 if lo is None else max(0, lo)
            if atom[0] == 'eq':
                x = -c
                if (lo is not None and x < lo) or (hi is not None and x > hi) or x in self.ne.get(key, ()):
                    return False
                if lo is not None and lo == hi == x:
                    return True
            else:
                # key + c < 0  <=> key < -c <=> key <= -c-1
                m = -c - 1
                if hi is not None and hi <= m:
                    return True
                if lo is not None and lo > m:
                    return False
        return None

    def assume(self, atom, pol):
        """-> False when contradictory"""
        q = self.query(atom)
        if q is not None and q != pol:
            return False
        self.atoms[atom] = pol
        if atom[0] in ('eq', 'lt'):
            key, c = atom[1], atom[2]
            lo, hi = self.rng.get(key, (None, None))
            if atom[0] == 'eq':
                x = -c
                if pol:
                    lo = hi = x
                else:
                    self.ne[key] = self.ne.get(key, frozenset()) | {x}
            else:
                m = -c - 1
                if pol:
                    hi = m if hi is None else min(hi, m)
                else:
                    lo = m + 1 if lo is None else max(lo, m + 1)
            ne = self.ne.get(key, ())
            while lo is not None and lo in ne and (hi is None or lo <= hi):
                lo += 1
            while hi is not None and hi in ne and (lo is None or lo <= hi):
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return False
            self.rng[key] = (lo, hi)
        return True


class Path:
    __slots__ = ('store', 'facts', 'ev', 'n', 'end', 'ret', 'active', 'trail', 'loc', 'ents', 'unroll')

    def __init__(self):
        self.store, self.facts, self.ev, self.n = {}, Facts_(), [], 0
        self.end = self.ret = None
        self.active = {}
        self.trail = ()
        self.loc = None
        self.ents = {}
        self.unroll = {}

    def clone(self):
        p = Path()
        p.store = dict(self.store)
        p.facts = Facts_(self.facts)
        p.ev = list(self.ev)
        p.n = self.n
        p.active = dict(self.active)
        p.trail = self.trail
        p.ents = self.ents
        p.unroll = self.unroll
        return p

    def decisions(self):
        return [(e[1], e[2]) for e in self.ev if e[0] == 'dec']


def is_local(P):
    while P[0] in ('f', 'i'):
        P = P[1]
    return P[0] == 'v' and '#' in P[1]


def parents(P):
    while P[0] in ('f', 'i'):
        P = P[1]
        yield P


def prefix_of(P, Q):
    """P is a (non-strict) prefix place of Q"""
    while True:
        if P == Q:
            return True
        if Q[0] in ('f', 'i'):
            Q = Q[1]
        else:
            return False


class Interp:
    def __init__(self, cfg, max_paths=20000, inputs=None, effects=None, derefs=False, keep_casts=False, on_call=None, init=None,
                 max_steps=2000000, unroll=70):
        self.g = cfg
        self.unroll = unroll
        self.max_paths = max_paths
        self.effects = effects
        self.derefs = derefs
        self.on_call = on_call
        self.init = init or {}
        self.max_steps = max_steps
        self.heads, self.order = self.find_heads()
        self.mods = {}
        self.classes = {}
        self.solo = set()
        self.loc = None

    # ---------------------------------------------------------- loop heads
    def succs(self, b):
        t = b.term
        if t is None:
            return []
        if t[0] == 'jmp':
            return [t[1]]
        if t[0] == 'br':
            return [t[2], t[3]]
        if t[0] == 'sw':
            return [x for _, x in t[2]] + [t[3]]
        return []

    def find_heads(self):
        heads, state, order = set(), {}, {}
        st = [(0, iter(self.succs(self.g.blocks[0])))]
        state[0] = 1
        order[0] = 0
        while st:
            b, it = st[-1]
            for s in it:
                if state.get(s) == 1:
                    heads.add(s)
                elif s not in state:
                    state[s] = 1
                    order[s] = len(order)
                    st.append((s, iter(self.succs(self.g.blocks[s]))))
                    break
            else:
                state[b] = 2
                st.pop()
        # canonical loop numbers
        self.hnum = {h: i for i, h in enumerate(sorted(heads, key=lambda x: order[x]))}
        self.reach = order
        return heads, order

    # --------------------------------------------------------------- store
    def val(self, p, P):
        s = p.store
        if P in s:
            base = s[P]
        else:
            base = self.project(p, P)
        subs = {}
        for k in s:
            if k != P and len(k) > 1 and k[0] in ('f', 'i') and prefix_of(P, k):
                subs[k] = s[k]
        if subs:
            return self.compose(p, P, base, subs)
        return base

    def base(self, p, P):
        """value of P ignoring element writes (for size-like observers)"""
        return p.store[P] if P in p.store else self.project(p, P)

    def compose(self, p, P, base, subs):
        # only the topmost written sub-places matter
        top = []
        for k in subs:
            # relative path
            rel = []
            q = k
            while q != P:
                rel.append((q[0], q[2]))
                q = q[1]
            top.append((tuple(reversed(rel)), subs[k]))
        keep = []
        for r, v in sorted(top, key=lambda x: (len(x[0]), repr(x[0]))):
            if base is not None and self.proj_rel(p, base, r) == v:
                continue
            keep.append((r, v))
        if not keep:
            return base
        if isinstance(base, tuple) and base[0] == 'push':
            n = self.size(base[1])
            mine = [(r, v) for r, v in keep if r[0][0] == 'i' and r[0][1] == n]
            rest = [(r, v) for r, v in keep if not (r[0][0] == 'i' and r[0][1] == n)]
            if mine:
                x = base[2]
                one = [v for r, v in mine if len(r) == 1]
                if one:
                    x = one[-1]
                deep = tuple((r[1:], v) for r, v in mine if len(r) > 1)
                if deep:
                    x = ('upd', x, deep)
                base = ('push', base[1], x)
            keep = rest
            if not keep:
                return base
        return ('upd', base, tuple(keep))

    def proj_rel(self, p, base, rel):
        v = base
        for kind, x in rel:
            v = self.proj(v, kind, x)
        return v

    def project(self, p, P):
        if P[0] in ('f', 'i'):
            return self.proj(self.project_base(p, P[1]), P[0], P[2])
        return ('in', P)

    def project_base(self, p, P):
        if P in p.store:
            return p.store[P]
        return self.project(p, P)

    def proj(self, v, kind, x):
        if isinstance(v, tuple):
            if v[0] == 'in':
                return ('in', (kind, v[1], x))
            if v[0] == 'upd':
                pre = (kind, x)
                sub = []
                for r, w in v[2]:
                    if r[0] == pre:
                        if len(r) == 1:
                            return w
                        sub.append((r[1:], w))
                    elif kind == 'i' and r[0][0] == 'i':
                        d = add(r[0][1], x, -1)
                        if not isinstance(d, int) or d == 0:
                            return ('idx', v, x)
                b = self.proj(v[1], kind, x)
                return ('upd', b, tuple(sub)) if sub else b
            if v[0] == 'push' and kind == 'i':
                d = add(self.size(v[1]), x, -1)
                if d == 0:
                    return v[2]
                if isinstance(d, int):
                    return self.proj(v[1], kind, x)
            if v[0] == 'agg' and kind == 'f':
                for n, w in v[2]:
                    if n == x:
                        return w
            if v[0] in ('phi', 'hv') :
                return (v[0], v[1], (kind, v[2], x))
            if v[0] == 'new' and v[1].startswith('std::pair') and kind == 'f' and len(v[2]) == 2:
                return v[2][0 if x == 'first' else 1]
            if v[0] == 'pure' and v[1] in ('make_pair',) and kind == 'f':
                return v[2][0 if x == 'first' else 1]
            if v[0] == 'new' and kind == 'i' and isinstance(x, int):
                w = v
                while len(w[2]) >= 1 and isinstance(w[2][0], tuple) and w[2][0][0] == 'new' and not w[1].rstrip().endswith(']'):
                    w = w[2][0]
                if w[1].rstrip().endswith(']') and 0 <= x < len(w[2]):
                    return w[2][x]
            if v[0] == 'str' and kind == 'i' and isinstance(x, int) and 0 <= x <= len(v[1]):
                return (tuple(v[1]) + (0,))[x]
        return ('fld' if kind == 'f' else 'idx', v, x)

    def size(self, v):
        if isinstance(v, tuple):
            if v[0] == 'push':
                return add(self.size(v[1]), 1)
            if v[0] == 'empty':
                return 0
            if v[0] == 'upd':
                if all(r[0][0] == 'i' for r, _ in v[2]):
                    return self.size(v[1])
            if v[0] == 'new' and v[1].startswith(('std::vector', 'std::map', 'std::deque', 'std::list', 'std::set', 'std::basic_string',
                                                    'std::__cxx11::basic_string', 'std::__cxx11::list', 'std::unordered', 'std::stack')) and not v[2]:
                return 0
            if v[0] == 'str':
                return len(v[1])
        return ('size', v)

    def write(self, p, P, v, loc, ev=True):
        s = p.store
        for k in [k for k in s if prefix_of(P, k)]:
            del s[k]
        # element writes kill other elements they may alias
        q = P
        while q[0] in ('f', 'i'):
            if q[0] == 'i':
                for k in list(s):
                    kk = k
                    while kk[0] in ('f', 'i'):
                        if kk[0] == 'i' and kk[1] == q[1] and kk[2] != q[2]:
                            d = add(kk[2], q[2], -1)
                            if not isinstance(d, int):
                                p.n += 1
                                s.pop(k, None)
                                s[q[1]] = ('upd', s.get(q[1], self.project(p, q[1])), (((('i', kk[2]),), ('hv', p.n, k)),))
                                break
                        kk = kk[1]
            q = q[1]
        s[P] = v
        if ev and not is_local(P):
            p.ev.append(('write', P, v, loc))

    # ---------------------------------------------------------- evaluation
    def place(self, p, P):
        k = P[0]
        if k == 'v' or k == 'g':
            return P
        if k == 'f':
            return ('f', self.place(p, P[1]), P[2])
        if k == 'i':
            return ('i', self.place(p, P[1]), self.ev(p, P[2]))
        if k == 'back':
            Q = self.place(p, P[1])
            return ('i', Q, add(self.size(self.base(p, Q)), 1, -1))
        if k == 'd':
            return self.derefplace(p, self.ev(p, P[1]))
        raise CheckError('place %r' % (P,))

    def derefplace(self, p, v):
        if isinstance(v, tuple):
            if v[0] == 'addr':
                return v[1]
            if v[0] == 'begin':
                return ('i', v[1], 0)
            t, c = lin(v)
            for k, n in t.items():
                if n == 1 and isinstance(k, tuple):
                    if k[0] == 'begin':
                        return ('i', k[1], add(v, k, -1))
                    if k[0] == 'addr' and k[1][0] == 'i':
                        return ('i', k[1][1], add(add(v, k, -1), k[1][2]))
        return ('d', v)

    def load(self, p, P, loc=None):
        if self.derefs and (P[0] == 'd' or not is_local(P)):
            p.ev.append(('read', P, None, self.loc))
        return self.val(p, P)

    def ev(self, p, E):
        k = E[0]
        if k == 'c':
            return E[1]
        if k == 'ld':
            return self.load(p, self.place(p, E[1]))
        if k == 'addr':
            Q = self.place(p, E[1])
            if Q[0] == 'd':
                return Q[1]
            if Q[0] == 'i':
                return add(('begin', Q[1]), Q[2])
            return ('addr', Q)
        if k == 'bin':
            return self.binop(p, E[1], self.ev(p, E[2]), self.ev(p, E[3]))
        if k == 'un':
            v = self.ev(p, E[2])
            if E[1] == '-':
                return add(0, v, -1)
            if E[1] == '!':
                return self.mkcmp(atom_eq(v, 0))
            if E[1] == '+':
                return v
            if E[1] == '~' and isinstance(v, int):
                return ('op', '~', v, 0)
            return ('op', E[1], v, 0)
        if k == 'cast':
            return self.cast(E, self.ev(p, E[2]))
        if k == 's':
            return ('str', E[1], E[2])
        if k == 'm':
            return self.observer(p, E)
        if k == 'pure':
            a = tuple(self.ev(p, x) if x[0] != 'lamkey' else x for x in E[2])
            if E[1] in ('distance',):
                return add(a[1], a[0], -1)
            return ('pure', E[1], a)
        if k == 'mk':
            p.n += 1
            return ('alloc', p.n, E[1], tuple(self.ev(p, x) for x in E[2]))
        if k in ('new', 'init'):
            a = tuple(self.ev(p, x) for x in E[2])
            if not a and E[1].startswith(('std::vector', 'std::map', 'std::deque', 'std::set', 'std::stack', 'std::basic_string<',
                                          'std::__cxx11::basic_string', 'std::list', 'std::__cxx11::list')):
                return ('empty',)
            return ('new', E[1], a)
        if k == 'undef':
            p.n += 1
            return ('hv', p.n, ('v', 'undef'))
        return tuple(E)

    def cast(self, E, v):
        T = E[1]
        src = E[3] if len(E) > 3 else None
        if isinstance(v, int):
            if T in INTW:
                lo, hi = INTW[T]
                w = hi - lo + 1
                return (v - lo) % w + lo
            return v
        if v[0] == 'cmp':
            return v
        if src in INTW and T in INTW:
            (a, b), (c, d) = INTW[src], INTW[T]
            if c <= a and b <= d:
                return v
        if T in INTW and src in INTW:
            (a, b), (c, d) = INTW[src], INTW[T]
            if d - c >= b - a and not (a < 0 <= c and b - a < 2**31):
                return v
        if T in INTW and v[0] == 'op' and v[1] == '&' and any(isinstance(x, int) and 0 <= x <= INTW[T][1] for x in v[2:]):
            return v
        if v[0] == 'cast' and v[1] == T:
            return v
        return ('cast', T, v)

    def mkcmp(self, a):
        if isinstance(a, bool):
            return int(a)
        return ('cmp', a[0], a[1])

    def binop(self, p, op, a, b):
        if op in ('+', '-'):
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'str' and op == '+':
                return ('op', op, a, b)
            if self.stringish(a) or self.stringish(b):
                return ('op', op, a, b)
            return add(a, b, 1 if op == '+' else -1)
        if op == '==':
            return self.mkcmp(atom_eq(a, b))
        if op == '!=':
            r = atom_eq(a, b)
            return int(not r) if isinstance(r, bool) else ('cmp', r[0], not r[1])
        if op == '<':
            return self.mkcmp(atom_lt(a, b))
        if op == '>':
            return self.mkcmp(atom_lt(b, a))
        if op in ('<=', '>='):
            r = atom_lt(b, a) if op == '<=' else atom_lt(a, b)
            return int(not r) if isinstance(r, bool) else ('cmp', r[0], not r[1])
        if isinstance(a, int) and isinstance(b, int):
            if op == '*':
                return a * b
            if op == '&':
                return a & b
            if op == '|':
                return a | b
            if op == '^':
                return a ^ b
            if op == '<<':
                return a << b
            if op == '>>':
                return a >> b
            if op == '/' and b > 0 and a >= 0:
                return a // b
            if op == '%' and b > 0 and a >= 0:
                return a % b
        if op == '*' and (isinstance(a, int) or isinstance(b, int)):
            if isinstance(b, int):
                a, b = b, a
            t, c = lin(b)
            return mklin({k: n * a for k, n in t.items()}, c * a)
        if op in ('&', '|', '^', '*'):
            if op == '&' and (a == 0 or b == 0):
                return 0
            if op in '|^' and b == 0:
                return a
            if op in '|^' and a == 0:
                return b
            if repr(a) > repr(b):
                a, b = b, a
        return ('op', op, a, b)

    def stringish(self, v):
        return isinstance(v, tuple) and (v[0] == 'str' or (v[0] == 'new' and 'basic_string' in v[1]) or v[0] == 'empty' or
                                         (v[0] == 'm' and v[1] in ('substr', 'str')))

    def observer(self, p, E):
        name, P, args = E[1], self.place(p, E[2]), tuple(self.ev(p, x) for x in E[3])
        if name == 'begin':
            return ('begin', P)
        if name == 'end':
            return add(('begin', P), self.size(self.base(p, P)))
        if name in ('c_str', 'data') and not args:
            return ('begin', P)
        if name in ('size', 'length'):
            return self.size(self.base(p, P))
        if name == 'empty':
            return self.mkcmp(atom_eq(self.size(self.base(p, P)), 0))
        if name.startswith('&'):
            return ('addr', ('d', ('m', name, self.val(p, P), args)))
        return ('m', name, self.val(p, P), args)

    # ------------------------------------------------------------ execution
    def run(self):
        for _ in range(40):
            self.changed = False
            r = self.run_once()
            if not self.changed:
                self.paths = r
                self.invariants()
                return r
        raise Cap('loop modification sets did not stabilise in ' + self.g.fn['q'])

    def run_once(self):
        done = []
        p0 = Path()
        for P, v in self.init.items():
            p0.store[P] = v
        work = [(0, p0)]
        steps = 0
        while work:
            b, p = work.pop()
            while True:
                steps += 1
                if steps > self.max_steps:
                    raise Cap('analysis step budget exceeded in %s' % self.g.fn['q'])
                if b in self.heads and b not in p.active and self.counted(b, p):
                    pass
                elif b in self.heads:
                    if b in p.active:
                        self.backedge(b, p)
                        p.end = ('back', self.hnum[b])
                        done.append(p)
                        break
                    self.enter(b, p)
                blk = self.g.blocks[b]
                for i in blk.ins:
                    self.instr(p, i)
                nxt = self.terminate(p, blk)
                if nxt is None:
                    done.append(p)
                    break
                if not nxt:
                    break  # infeasible
                for nb, np in nxt[1:]:
                    work.append((nb, np))
                b, p = nxt[0]
            if len(done) + len(work) > self.max_paths:
                raise Cap('more than %d partitions in %s' % (self.max_paths, self.g.fn['q']))
        return done

    def invariants(self):
        """guards[h] = {(B, X)}: while the flag B is still zero, X has its value at loop entry (inductive over every way round)"""
        self.guards = {}
        self.backs = {}
        for p in self.paths:
            if p.end[0] == 'back':
                self.backs.setdefault(p.end[1], []).append(p)
        for b, m in self.mods.items():
            h = self.hnum[b]
            g = set()
            for B in m:
                fb = ('phi', h, self.classes[b][B])
                nx = [q.ret[B] for q in self.backs.get(h, [])]
                flags = [v if v != fb and v != ('cmp', ('eq', ((fb, 1),), 0), False) else None for v in nx]
                if any(v is not None and not (isinstance(v, int) and v != 0) for v in flags) or all(v is None for v in flags):
                    continue
                for X in m:
                    if X == B:
                        continue
                    fx = ('phi', h, self.classes[b][X])
                    if all(f is not None or q.ret[X] == fx for f, q in zip(flags, self.backs.get(h, []))):
                        g.add((fb, fx, X))
            if g:
                self.guards[h] = g

    def resolve(self, p, v, facts=None):
        """rewrite phis whose guard flag is known to be unset on this partition by their value at loop entry"""
        f = facts or p.facts
        for _ in range(6):
            sub = {}
            for h, g in self.guards.items():
                if h not in p.ents:
                    continue
                for fb, fx, X in g:
                    if f.query(('eq', ((fb, 1),), 0)) is True and X in p.ents[h]:
                        sub[fx] = p.ents[h][X]
            w = subst(v, sub)
            if w == v:
                return v
            v = w
        return v

    def counted(self, b, p):
        """a loop whose head compares known integers is followed iteration by iteration"""
        blk = self.g.blocks[b]
        if blk.ins or not blk.term or blk.term[0] != 'br':
            return False
        E = blk.term[1]
        if E[0] != 'bin' or E[1] not in ('<', '>', '<=', '>=', '!=') or p.unroll.get(b, 0) > self.unroll:
            return False
        if not (isinstance(self.ev(p, E[2]), int) and isinstance(self.ev(p, E[3]), int)):
            return False
        p.unroll = dict(p.unroll)
        p.unroll[b] = p.unroll.get(b, 0) + 1
        return True

    def enter(self, b, p):
        m = self.mods.setdefault(b, set())
        ent = {}
        for P in sorted(m, key=repr):
            ent[P] = self.val(p, P)
        # optimistic congruence classes: places that agree at every entry and on every way round share a phi
        cl = self.classes.setdefault(b, {})
        for P in sorted(m, key=repr):
            if P not in cl:
                self.join_class(b, P, ent)
        self.split(b, ent)
        for P in sorted(m, key=repr):
            self.write(p, P, ('phi', self.hnum[b], cl[P]), None, ev=False)
        p.active[b] = dict(p.store)
        p.ents = dict(p.ents)
        p.ents[self.hnum[b]] = ent
        p.ev.append(('loop', self.hnum[b], ent))
        # facts about overwritten values stay valid: they talk about terms, not places

    def join_class(self, b, P, ent):
        cl = self.classes[b]
        if (b, P) not in self.solo:
            for Q in sorted(cl, key=repr):
                if cl[Q] == Q and Q in ent and ent[Q] == ent[P] and not isinstance(ent[P], int):
                    cl[P] = Q
                    return
        cl[P] = P

    def split(self, b, vals):
        """members of a class whose values differ here cannot be congruent"""
        cl = self.classes[b]
        reps = {}
        for P in sorted(cl, key=repr):
            if P in vals:
                reps.setdefault(cl[P], []).append(P)
        for r, ms in reps.items():
            by = {}
            for P in ms:
                by.setdefault(vals[P], []).append(P)
            if len(by) > 1:
                groups = sorted(by.values(), key=lambda g: (r not in g, repr(g)))
                keep = groups[0]
                if r not in keep:
                    for P in keep:
                        cl[P] = keep[0]
                for g in groups[1:]:
                    for P in g:
                        cl[P] = g[0]
                        self.solo.add((b, P)) if False else None
                self.changed = True

    def backedge(self, b, p):
        m = self.mods[b]
        ent = p.active[b]
        nxt = {}
        for P in list(p.store):
            if P in ent:
                if ent[P] != p.store[P] or P in m:
                    nxt[P] = p.store[P]
                    if P not in m and self.covered(P, m) is None:
                        m.add(P)
                        self.changed = True
            else:
                # written inside the loop only
                if is_local(P) and not any(Q in ent for Q in parents(P)):
                    continue
                c = self.covered(P, m)
                if c is not None:
                    if c != P:
                        nxt[c] = self.val(p, c)
                    continue
                Q = self.modroot(P, ent)
                if Q is not None:
                    m.add(Q)
                    self.changed = True
        for P, v in ent.items():
            # part of something written as a whole
            if P not in p.store and P not in m and self.covered(P, m) is None and self.val(p, P) != v:
                m.add(P)
                self.changed = True
        for P in m:
            if P not in nxt:
                nxt[P] = self.val(p, P)
        p.ret = nxt
        self.split(b, {P: v for P, v in nxt.items() if P in m})

    def covered(self, P, m):
        Q = P
        while True:
            if Q in m:
                return Q
            if Q[0] in ('f', 'i'):
                Q = Q[1]
            else:
                return None

    def modroot(self, P, ent):
        """the loop-invariant place to havoc for a write to P (drop element indices that vary in the loop)"""
        Q = P
        top = P
        while Q[0] in ('f', 'i'):
            if Q[0] == 'i' and not isinstance(Q[2], int):
                top = Q[1]
            Q = Q[1]
        if Q[0] == 'd' and self.hasphi(Q[1]):
            # memory reached through a pointer that varies: not tracked as a place
            return None
        return top

    def hasphi(self, v):
        if isinstance(v, tuple):
            if v and v[0] == 'phi':
                return True
            return any(self.hasphi(x) for x in v if isinstance(x, tuple))
        return False

    def instr(self, p, i):
        self.loc = i[-1]
        if i[0] == 'asg':
            v = self.ev(p, i[2])
            P = self.place(p, i[1])
            if self.derefs:
                p.ev.append(('asg', P, v, i[3]))
            self.write(p, P, v, i[3])
        elif i[0] == 'call':
            self.call(p, i)
        else:
            raise CheckError('instr %r' % (i,))

    def call(self, p, i):
        _, dest, info, obj, args, loc = i
        P = self.place(p, obj) if obj is not None else None
        av = []
        arrays = []
        for a in args:
            if a[0] == 'addr':
                av.append(('addr', self.place(p, a[1])))
            elif a[0] == 'decay':
                arrays.append(self.place(p, a[1]))
                av.append(('begin', arrays[-1]))
            elif a[0] in ('lamkey', 'fnp'):
                av.append(a)
            else:
                av.append(self.ev(p, a))
        p.n += 1
        n = p.n
        k = info['kind']
        name = info['n']
        res = ('res', n, name)
        before = self.base(p, P) if P is not None and k == 'mut' else None
        tgt = self.ev(p, info['target']) if isinstance(info.get('target'), tuple) else None
        p.ev.append(('call', info, P, tuple(av), res, loc, before, tgt))
        if self.on_call:
            r = self.on_call(self, p, info, P, av, res, loc)
            if r is not None:
                if dest is not None:
                    p.store[dest] = r
                return
        if k == 'mut' and P is not None:
            old = self.val(p, P)
            if name in ('push_back', 'emplace_back', 'push', 'emplace') and (name != 'emplace' or 'stack' in info.get('cls', '')):
                x = av[0] if len(av) == 1 else (('new', '', tuple(av)) if av else ('new', '', ()))
                if isinstance(x, tuple) and x[0] == 'addr' and not ptrelem(info.get('cls', '')):
                    x = self.val(p, x[1])
                nv = ('push', old, x)
            elif name == 'clear':
                nv = ('empty',)
            elif name in ('pop_back', 'pop') and isinstance(old, tuple) and old[0] == 'push':
                nv = old[1]
            elif name == 'append' and old == ('empty',):
                nv = av[0]
            elif name == 'assign' and len(av) == 1:
                nv = av[0]
            elif name in ('reserve', 'shrink_to_fit'):
                nv = old
            else:
                nv = ('mut', name, old, tuple(av))
            self.write(p, P, nv, loc)
        elif k == 'out' and P is not None:
            pass
        elif k == 'repo' and P is not None:
            self.write(p, P, ('hv', n, P), loc)
        for a in av:
            if isinstance(a, tuple) and a[0] == 'addr' and a[1][0] == 'v' and k != 'mut':
                p.ev.append(('pre', ('hv', n, a[1]), self.val(p, a[1])))
            if isinstance(a, tuple) and a[0] == 'addr' and not (k == 'mut' and ptrelem(info.get('cls', ''))):
                self.write(p, a[1], ('hv', n, a[1]), loc)
        for Q in arrays:
            self.write(p, Q, ('hv', n, Q), loc)
        if dest is not None:
            p.store[dest] = res

    def assume(self, p, r, loc):
        """r: bool | (atom,pol) -> list of feasible (truth, path)"""
        if isinstance(r, bool):
            return [(r, p)]
        atom, pol = r
        q = p.facts.query(atom)
        if q is None and atom[0] == 'eq' and atom[2] > 0 and len(atom[1]) == 1 and atom[1][0][1] == 1 and atom[1][0][0][0] == 'phi':
            # a pointer that was read through and then moved forward is not null
            d = ('in', ('d', atom[1][0][0]))
            if any(a[0] in ('eq', 'lt') and any(t == d for t, _ in a[1]) for a in p.facts.atoms):
                q = False
        if q is not None:
            return [(q == pol, p)]
        out = []
        for truth in (True, False):
            np = p if truth is False else p.clone()
            val = truth == pol
            if np.facts.assume(atom, val):
                np.ev.append(('dec', atom, val, loc))
                out.append((truth, np))
        return out

    def truth(self, v):
        if isinstance(v, int):
            return v != 0
        if v[0] == 'cmp':
            return (v[1], v[2])
        r = atom_eq(v, 0)
        if isinstance(r, bool):
            return not r
        return (r[0], not r[1])

    def terminate(self, p, blk):
        t = blk.term
        if t is None or t[0] == 'unreach':
            p.end = ('unreach',)
            return None
        if t[0] == 'jmp':
            return [(t[1], p)]
        if t[0] == 'ret':
            p.end = ('ret',)
            p.ret = self.val(p, ('v', '$ret'))
            return None
        if t[0] == 'throw':
            p.end = ('throw', t[1], self.ev(p, t[2]), t[3])
            return None
        if t[0] in ('br', 'sw'):
            self.loc = t[4]
        if t[0] == 'br':
            v = self.ev(p, t[1])
            out = []
            for truth, np in self.assume(p, self.truth(v), t[4]):
                out.append((t[2] if truth else t[3], np))
            return out
        if t[0] == 'sw':
            v = self.ev(p, t[1])
            if isinstance(v, int):
                for c, b in t[2]:
                    if c == v:
                        return [(b, p)]
                return [(t[3], p)]
            out = []
            cur = p
            for c, b in t[2]:
                nxt = None
                for truth, np in self.assume(cur, atom_eq(v, c), t[4]):
                    if truth:
                        out.append((b, np))
                    else:
                        nxt = np
                cur = nxt
                if cur is None:
                    break
            if cur is not None:
                out.append((t[3], cur))
            return out
        raise CheckError('term %r' % (t,))


# ------------------------------------------------------------------ helpers
def ptrelem(cls):
    """is cls a standard container of plain pointers?"""
    return cls.startswith('std::') and cls.split('<')[0].split('::')[-1] in ('vector', 'set', 'stack', 'list', 'deque') and \
        cls.rstrip('> ').endswith('*')


def subst(v, sub):
    if not isinstance(v, tuple) or not sub:
        return v
    if v in sub:
        return sub[v]
    if v and v[0] == 'lin':
        r = v[2]
        for k, n in v[1]:
            x = subst(k, sub)
            t, c = lin(x)
            r = add(r, mklin({a: b * n for a, b in t.items()}, c * n))
        return r
    if v and v[0] == 'cmp' and v[1][0] in ('eq', 'lt'):
        r = v[1][2]
        for k, n in v[1][1]:
            t, c = lin(subst(k, sub))
            r = add(r, mklin({a: b * n for a, b in t.items()}, c * n))
        a = atom_eq(r, 0) if v[1][0] == 'eq' else atom_lt(r, 0)
        if isinstance(a, bool):
            return int(a == v[2])
        return ('cmp', a[0], a[1] == v[2])
    return tuple(subst(x, sub) for x in v)


def contains(v, pred):
    if isinstance(v, tuple):
        if pred(v):
            return True
        return any(contains(x, pred) for x in v if isinstance(x, tuple))
    return False


def show(v, names=None):
    if isinstance(v, int):
        return str(v)
    if not isinstance(v, tuple):
        return str(v)
    k = v[0] if v else ''
    if k == 'in':
        return show(v[1])
    if k == 'v':
        return v[1].split('#')[0]
    if k == 'g':
        return v[1]
    if k == 'f':
        return show(v[1]) + '.' + v[2]
    if k == 'i':
        return '%s[%s]' % (show(v[1]), show(v[2]))
    if k == 'd':
        return '*(%s)' % show(v[1])
    if k == 'phi':
        return '%s~%s' % (show(v[2]), v[1])
    if k == 'hv':
        return '?%s' % show(v[2])
    if k == 'addr':
        return '&' + show(v[1])
    if k == 'begin':
        return 'begin(%s)' % show(v[1])
    if k == 'lin':
        s = ' + '.join(('' if n == 1 else '-' if n == -1 else '%d*' % n) + show(t) for t, n in v[1])
        return '(%s%s)' % (s, '' if not v[2] else ' %+d' % v[2])
    if k == 'cmp':
        return ('' if v[2] else '!') + showatom(v[1])
    if k == 'size':
        return 'size(%s)' % show(v[1])
    if k == 'res':
        return '%s()@%d' % (v[2], v[1])
    if k == 'str':
        return repr(''.join(chr(c) if c < 0x110000 else '?' for c in v[1]))
    return '%s(%s)' % (k, ', '.join(show(x) for x in v[1:]))


def showatom(a):
    if a[0] in ('eq', 'lt'):
        s = ' + '.join(('' if n == 1 else '-' if n == -1 else '%d*' % n) + show(t) for t, n in a[1])
        return '%s %s %d' % (s, '==' if a[0] == 'eq' else '<', -a[2])
    return str(a)


def showpath(p, writes=True, calls=True):
    out = []
    for e in p.ev:
        if e[0] == 'dec':
            out.append('  if %s%s' % ('' if e[2] else 'NOT ', showatom(e[1])))
        elif e[0] == 'write' and writes:
            out.append('  %s := %s' % (show(e[1]), show(e[2])))
        elif e[0] == 'call' and calls:
            out.append('  call %s %s(%s)' % (show(e[2]) if e[2] else '', e[1]['n'], ', '.join(show(x) for x in e[3])))
        elif e[0] == 'loop':
            out.append('  loop %d {%s}' % (e[1], ', '.join(show(k) for k in e[2])))
        elif e[0] == 'read':
            out.append('  read %s' % show(e[1]))
    out.append('  END %s %s' % (p.end[:1] if p.end else None, show(p.ret) if p.end and p.end[0] == 'ret' and p.ret is not None else ''))
    return '\n'.join(out)
