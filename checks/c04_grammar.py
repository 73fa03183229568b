"""C04: which texts are regular expressions, and how they are grouped."""
from record_model import *
from evalx import value, consistent, fact
from c26_features import gname

BEGIN, REGEX, OREXP, SEQ, SUB, EXPR, REPEAT, DUP, OR, CHARSET, BOL, EOL, MACRO, OPEN, CLOSE = range(15)
OPT, AOPT, STAR, ASTAR, PLUS, APLUS, REPN, AREPN, END, DIFF = range(15, 25)
QUANT = range(OPT, END)
NAMES = ['BEGIN', 'REGEX', 'OREXP', 'SEQUENCE', 'SUB', 'EXPRESSION', 'REPEAT', 'DUP', 'OR', 'CHARSET', 'BOL', 'EOL', 'MACRO', 'OPENPAREN',
         'CLOSEPAREN', 'OPT', 'AOPT', 'ZEROORMORE', 'AZEROORMORE', 'ONEORMORE', 'AONEORMORE', 'REPEATN', 'AREPEATN', 'END', 'DIFF']
GRAMMAR = {REGEX: [[OREXP]], OREXP: [[SEQ], [OREXP, OR, SEQ]], SEQ: [[SUB]], SUB: [[EXPR], [SUB, EXPR]], EXPR: [[REPEAT]],
           REPEAT: [[CHARSET], [BOL], [EOL], [MACRO], [OPEN, REGEX, CLOSE], [REPEAT, DUP]], DUP: [[q] for q in QUANT]}
TREE = {'perform_or', 'sequence', 'optional', 'zero_or_more', 'one_or_more', 'repeatn'}
TS = ('f', THIS, '_token_stack')
NONE, LT, EQ, GT = 32, 60, 61, 62
SIZES = {OREXP: (1, 3), SUB: (1, 2), REPEAT: (1, 2), OPEN: (3,)}
DONE = {  # (head, length of the handle) -> grouping performed, tokens pushed
    (BEGIN, 1): ([], []), (REGEX, 1): ([], []), (OREXP, 1): ([], [REGEX]), (OREXP, 3): ([('perform_or',)], [OREXP]), (SEQ, 1): ([], [OREXP]),
    (SUB, 1): ([], [SEQ]), (SUB, 2): ([('sequence',)], [SUB]), (EXPR, 1): ([], [SUB]), (REPEAT, 1): ([], [EXPR]), (REPEAT, 2): ([], [REPEAT]),
    (BOL, 1): ([], [REPEAT]), (EOL, 1): ([], [REPEAT]), (CHARSET, 1): ([], [REPEAT]), (OPEN, 3): ([], [REPEAT]),
    (OPT, 1): ([('optional', 2)], [DUP]), (AOPT, 1): ([('optional', 0)], [DUP]), (STAR, 1): ([('zero_or_more', 2)], [DUP]),
    (ASTAR, 1): ([('zero_or_more', 0)], [DUP]), (PLUS, 1): ([('one_or_more', 2)], [DUP]), (APLUS, 1): ([('one_or_more', 0)], [DUP]),
    (REPN, 1): ([('repeatn', 2)], [DUP]), (AREPN, 1): ([('repeatn', 0)], [DUP])}


def run(ctx):
    ctx.rule('relation', 'the precedence of every pair of tokens that can meet is the one the grammar gives it', 1000)
    ctx.rule('shift', 'parsing shifts, reduces or reports an error as the precedence of the top of the stack and the next token says', 20)
    ctx.rule('handle', 'a reduction takes the longest run of tokens of equal precedence off the stack', 10)
    ctx.rule('reduction', 'a reduction performs the grouping its production stands for and leaves its left-hand side', 100)
    ctx.rule('checked', 'a token that cannot follow the one before it is an error when the rule is added', 5)
    ctx.rule('set-operator', '{+} and {-} combine the single set before them with the single set after them; anything else is an error', 50)
    ctx.rule('macro', 'a macro stands for its own tokens, in parentheses when there are several', 30)
    F = ctx.facts('d_core')
    pairs = reachable(wirth_weber())
    n = 0
    for f in [f for f in F.fns.values() if 'body' in f]:
        cls = f.get('cls', '')
        if f['n'] == 'precedence' and cls.startswith('lexertl::detail::basic_re_token<'):
            table(ctx, F, f, pairs)
        elif f['n'] == 'parse' and cls.startswith('lexertl::detail::basic_parser<'):
            shift(ctx, F, f)
        elif f['n'] == 'reduce' and cls.startswith('lexertl::detail::basic_parser<'):
            reduce_(ctx, F, f)
        elif f['n'] == 'tokenise' and cls.startswith('lexertl::basic_rules<'):
            tokens(ctx, F, f)
    ctx.assume('the pairs compared are those the parse can meet; entries of the table it can never look at are free')


# ---------------------------------------------------------------- the grammar
def wirth_weber():
    first, last = {n: set() for n in GRAMMAR}, {n: set() for n in GRAMMAR}
    for s, k in ((first, 0), (last, -1)):
        ch = True
        while ch:
            ch = False
            for n, ps in GRAMMAR.items():
                for p in ps:
                    x = {p[k]} | s.get(p[k], set())
                    if not x <= s[n]:
                        s[n] |= x
                        ch = True
    rel = {}

    def put(a, b, r):
        if rel.setdefault((a, b), r) != r:
            raise CheckError('grammar is not a precedence grammar at %s %s' % (NAMES[a], NAMES[b]))
    for ps in GRAMMAR.values():
        for p in ps:
            for x, y in zip(p, p[1:]):
                put(x, y, EQ)
                for b in first.get(y, ()):
                    put(x, b, LT)
                for a in last.get(x, ()):
                    for b in {y} | first.get(y, set()):
                        if b not in GRAMMAR:
                            put(a, b, GT)
    for b in {REGEX} | first[REGEX]:
        put(BEGIN, b, LT)
    for a in {REGEX, BEGIN} | last[REGEX]:
        put(a, END, GT)
    # an operand takes one quantifier, ^ none
    for a in {BOL, DUP} | set(QUANT):
        for b in QUANT:
            rel.pop((a, b), None)
    return rel


def reachable(rel):
    """{(x,y): precedence} of all pairs the parse may compare: top of stack against next token or a reduced symbol"""
    T = [OR, CHARSET, BOL, EOL, MACRO, OPEN, CLOSE, END] + list(QUANT)
    lhs = {p[0]: n for n, ps in GRAMMAR.items() for p in ps if len(p) == 1}
    below = {}                                  # symbol -> symbols seen directly below it on the stack
    tops = {(BEGIN, t) for t in T}
    cmp_ = set(tops)
    work = list(tops)

    def add_(a, b):
        cmp_.add((a, b))
        if (a, b) not in tops:
            tops.add((a, b))
            work.append((a, b))
    changed = True
    seenbelow = set()
    while changed:
        changed = False
        while work:
            work.pop()
        for a, b in list(tops):
            r = rel.get((a, b), NONE)
            n = len(tops), len(seenbelow)
            if r in (LT, EQ) and b != MACRO:
                seenbelow.add((a, b))
                for t in T:
                    add_(b, t)
            elif r == GT:
                # every production ending in a, for every symbol that may lie below its handle
                for N, ps in GRAMMAR.items():
                    for p in ps:
                        if p[-1] == a:
                            lows = {x for x, y in seenbelow if y == p[0]}
                            for x in lows:
                                if len(p) > 1 and not all((u, v) in seenbelow for u, v in zip(p, p[1:])):
                                    continue
                                if rel.get((x, p[0])) != LT:
                                    continue
                                cmp_.add((x, N))
                                if rel.get((x, N), NONE) in (LT, EQ):
                                    seenbelow.add((x, N))
                                add_(N, b)
            if (len(tops), len(seenbelow)) != n:
                changed = True
    return {(a, b): rel.get((a, b), NONE) for a, b in cmp_ | seenbelow}


# ---------------------------------------------------------------- the table
def arrays(F, f, name):
    for n in list(nodes(f['body'])):
        if n['k'] == 'var' and n['n'] == name and n.get('i'):
            return n['i']
    for g in F.globals.values() if isinstance(F.globals, dict) else F.globals:
        if g['n'] == name and g.get('i'):
            return g['i']
    raise CheckError('table %s not found' % name)


def element(F, f, P, env):
    """the literal at place P of a constant table"""
    idx = []
    while P[0] == 'i':
        k = value(P[2], env)
        if k is None:
            return None
        idx.insert(0, k)
        P = P[1]
    e = arrays(F, f, P[1].split('#')[0])
    for k in idx:
        while e['k'] in ('init', 'cast') and (e['k'] == 'cast' or (len(e['a']) == 1 and e['a'][0]['k'] == 'init')):
            e = e['e'] if e['k'] == 'cast' else e['a'][0]
        if e['k'] != 'init' or not 0 <= k < len(e['a']):
            return None
        e = e['a'][k]
    while e['k'] == 'cast':
        e = e['e']
    return e.get('v') if e['k'] == 'int' else None


def table(ctx, F, f, pairs):
    o, where = gname(f), f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, lambda g: True)
    own, arg = ('in', ('f', THIS, '_type')), ('in', ('v', f['params'][0]['n']))
    for (a, b), want in sorted(pairs.items()):
        env = {own: a, arg: b}
        got = set()
        for p in I.paths:
            if p.end[0] == 'ret' and consistent(p, env):
                v = p.ret
                while isinstance(v, tuple) and v[0] == 'cast':
                    v = v[2]
                got.add(v if isinstance(v, int) else element(F, f, v[1], env) if v[0] == 'in' else None)
        if None in got or not got:
            raise CheckError('%s: precedence of %s %s is not a table entry' % (o, NAMES[a], NAMES[b]))
        ctx.check(got == {want}, 'relation', '%s:%s:%s' % (o, NAMES[a], NAMES[b]), where,
                  "%s against %s is %r, the grammar says %r" % (NAMES[a], NAMES[b], ''.join(map(chr, sorted(got))), chr(want)))


# ---------------------------------------------------------------- shift or reduce
def prec(p):
    """the precedence terms partition p decides on"""
    out = []
    for a in p.facts.atoms:
        if a[0] in ('eq', 'lt'):
            for t, _ in a[1]:
                while t[0] == 'cast':
                    t = t[2]
                if t[0] == 'm' and t[1] == 'precedence' and t not in out:
                    out.append(t)
    return out


def shift(ctx, F, f):
    o, where = gname(f), f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, lambda g: g['n'] not in ('reduce', 'precedence', 'fixup_bol', 'firstpos'))
    seq = ('v', f['params'][0]['n'])
    ents = {}
    for p in I.paths:
        M = prec(p)
        if not M or p.end[0] == 'unreach':      # a failed assertion
            continue
        if len(M) != 1:
            raise CheckError('%s: several precedences in one round' % o)
        M = M[0]
        ln = [e for e in p.ev if e[0] == 'loop']
        if not ln:
            raise CheckError('%s: no loop' % o)
        h, ent = ln[0][1], ln[0][2]
        LA = typeowner(M[3])
        top = M[2]
        stack = ('phi', h, TS)
        okm = LA is not None and LA[0] == 'phi' and onstack(top, stack)
        if not ctx.check(okm, 'shift', o + ':compared', where, 'compares %s with %s' % (show(top), show(M[3]))):
            continue
        P = LA[2]
        it = [q for q in ent if q[0] == 'v' and refers(ent[q], seq) and q != P]
        red = [e for e in p.ev if e[0] == 'call' and e[1]['n'] == 'reduce']
        st = ent.get(TS)
        for e in p.ev[:p.ev.index(ln[0])] if st is None else ():
            st = e[2] if e[0] == 'write' and e[1] == TS else st
        ctx.check(st is not None and pushed(st, seq, 0) and copied(ent[P], seq, 0, 1), 'shift', o + ':start', where,
                  'starts with %s on the stack and %s next' % (show(st) if st else 'nothing', show(ent[P])))
        for q in it:
            d = add(ent[q], ('begin', seq), -1)
            two = atom_eq(('size', ('in', seq)), 2)[0]
            ctx.check(d == 2 or d == 1 and p.facts.query(two) is True, 'shift', o + ':start-next', where, 'goes on with token %s' % show(d))
        for v in (LT, EQ, GT, NONE):
            if not consistent(p, {M: v}):
                continue
            name = '%s:%r' % (o, chr(v))
            if v == NONE:
                ctx.check(p.end[0] == 'throw', 'shift', name, where, 'goes on after a syntax error\n' + showpath(p))
                continue
            if not ctx.check(p.end[0] != 'throw', 'shift', name, where, 'throws'):
                continue
            if v == GT:
                empty = [a[1] for a in p.facts.atoms.items() if a[0][0] == 'eq' and len(a[0][1]) == 1 and a[0][2] == 0
                         and a[0][1][0][0][0] == 'size' and '_token_stack' in str(a[0][1][0][0]) and a[0][1][0][0][1][0] == 'hv']
                ok = len(red) == 1 and not [e for e in p.ev if e[0] == 'call' and e[1]['n'] in ('push', 'emplace') and e[2] == TS and after(p, e, ln[0])]
                ctx.check(ok, 'shift', name, where, 'does not just reduce\n' + showpath(p))
                ctx.check(empty == [p.end != ('back', h)], 'shift', o + ':finished', where, 'ends with tokens left, or goes on without any')
                if p.end == ('back', h):
                    same = all(p.ret.get(q, ('phi', h, q)) == ('phi', h, q) for q in [P] + it)
                    ctx.check(same, 'shift', name, where, 'a reduction takes a token off the input')
                continue
            if not ctx.check(p.end[0] == 'back' and not red, 'shift', name, where, 'does not shift'):
                continue
            now = p.ret[TS] if TS in p.ret else I.val(p, TS)
            ctx.check(now == ('push', stack, LA), 'shift', name, where, 'the stack becomes %s' % show(now))
            for q in it:
                cur = ('phi', h, q)
                nxt = p.ret.get(q, cur)
                ctx.check(copied(p.ret.get(P), seq, None, None, cur) or copied(p.ret.get(P), seq, None, None, nxt), 'shift', name + ':next', where,
                          'the next token becomes %s' % show(p.ret.get(P)))
                stays = nxt == cur
                # staying put is right only on the last token
                last = any(pol and atom_mentions(a, cur) for a, pol in p.facts.atoms.items())
                ctx.check(add(nxt, cur, -1) == 1 or (stays and last), 'shift', name + ':advance', where, 'position goes from %s to %s' % (show(cur), show(nxt)))
            ctx.check(it, 'shift', name + ':next', where, 'no position in the input')


def atom_mentions(a, t):
    return a[0] == 'eq' and any(x == t for x, _ in a[1])


def after(p, e, l):
    return p.ev.index(e) > p.ev.index(l)


def typeowner(args):
    """X of an argument list that is the type of the token X points to"""
    if len(args) != 1:
        return None
    v = args[0]
    while v[0] == 'cast':
        v = v[2]
    if v[0] == 'in' and v[1][0] == 'f' and v[1][2] == '_type' and v[1][1][0] == 'd':
        return v[1][1][1]
    return None


def onstack(v, stack):
    return repr(stack) in repr(v) or repr(stack[2]) in repr(v)


def refers(v, seq):
    return isinstance(v, tuple) and repr(('begin', seq)) in repr(v)


def copied(v, seq, k, k2=None, pos=None):
    """v is a new token copied from element k (or k2, or the position) of the token vector"""
    if not (isinstance(v, tuple) and v[0] == 'alloc'):
        return False
    s = v[-1]
    if pos is not None:
        return repr(('d', pos)) in repr(s) or any(repr(('i', seq, j)) in repr(s) for j in posof(pos, seq))
    return any(j is not None and repr(('i', seq, j)) in repr(s) for j in (k, k2))


def posof(pos, seq):
    d = add(pos, ('begin', seq), -1)
    return [d]


def pushed(v, seq, k):
    return isinstance(v, tuple) and v[0] == 'push' and copied(v[2], seq, k)


# ---------------------------------------------------------------- reductions
def reduce_(ctx, F, f):
    o, where = gname(f), f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, lambda g: g['n'] not in TREE | {'precedence', 'lookup', 'slice_range', 'push_ranges', 'npos'})
    # the term the reduction is selected by
    cand = {}
    for p in I.paths:
        for a in p.facts.atoms:
            if a[0] == 'eq' and len(a[1]) == 1:
                t = a[1][0][0]
                u = t
                while u[0] == 'cast':
                    u = u[2]
                if u[0] in ('in', 'phi', 'hv') and u[-1][:1] == ('f',) and u[-1][2] == '_type':
                    cand.setdefault(u, set()).add(a[2])
    if not cand:
        raise CheckError('%s: no selection by token type' % o)
    T = max(cand, key=lambda t: len(cand[t]))
    # the loop that takes the handle off the stack
    hs = {e[1] for p in I.paths for e in p.ev if e[0] == 'loop'}
    loops = [h for h in hs if any(p.end == ('back', h) and any(repr(('phi', h, TS)) in repr(m[2]) for m in prec(p)) for p in I.paths)]
    if len(loops) != 1:
        raise CheckError('%s: handle loop not found' % o)
    h = loops[0]
    backs = [p for p in I.paths if p.end == ('back', h)]
    stack = ('phi', h, TS)
    for p in backs + [q for q in I.paths if q.end[0] == 'ret']:
        M = [m for m in prec(p) if onstack(m[2], stack)]
        isback = p.end[0] == 'back'
        if isback:
            ctx.check(len(M) == 1 and consistent(p, {M[0]: EQ}) and not any(consistent(p, {M[0]: x}) for x in (LT, GT, NONE)), 'handle', o + ':while-equal', where,
                      'goes on taking tokens at another precedence')
            ctx.check(taken(p.ret[TS] if TS in p.ret else I.val(p, TS), stack) == 1, 'handle', o + ':one-by-one', where, 'a round does not take exactly one token off the stack')
        elif M:
            ctx.check(not consistent(p, {M[0]: EQ}), 'handle', o + ':stops', where, 'stops although the precedence is equal')
        else:
            e = [a for a, pol in p.facts.atoms.items() if pol and a[0] == 'eq' and a[2] == 0 and a[1][0][0][0] == 'size' and '_token_stack' in str(a[1])]
            ctx.check(e, 'handle', o + ':stops-empty', where, 'stops with tokens left and no comparison')
        for m in M:
            ctx.check(repr(T) in repr(m[3]) or isback, 'handle', o + ':compared', where, 'compares with %s' % show(m[3]))
            ctx.check("'pop'" in repr(m[2]), 'handle', o + ':below', where, 'compares %s' % show(m[2]))
    count = counters(I, h)
    for k in range(BEGIN, DIFF):
        for n in SIZES.get(k, (1,)):
            if (k, n) not in DONE:
                continue
            env = {T: k}
            env.update({t: c + n - 1 for t, c in count.items()})
            ps = [p for p in I.paths if p.end[0] in ('ret', 'throw') and consistent(p, env)]
            inst = '%s:%s%d' % (o, NAMES[k], n)
            if not ctx.check(ps, 'reduction', inst, where, 'no way through'):
                continue
            wops, wpush = DONE[k, n]
            for p in ps:
                if not ctx.check(p.end[0] == 'ret', 'reduction', inst, where, 'throws'):
                    continue
                ops, push = performed(I, p)
                if push == [OPEN, REGEX, CLOSE]:    # reduces to REPEAT in the next steps
                    push = [REPEAT]
                ctx.check(push == wpush, 'reduction', inst, where, 'leaves %s, not %s' % ([NAMES[x] if x is not None else '?' for x in push], [NAMES[x] for x in wpush]))
                got = [(n_,) + tuple(a[:1]) for n_, a in ops]
                ctx.check(got == wops, 'reduction', inst, where, 'performs %s instead of %s' % (got, wops))
                if k in (REPN, AREPN) and ops:
                    tok = ops[0][1][1] if len(ops[0][1]) > 1 else None
                    ctx.check(tok is not None and repr(T[-1][1]).find(repr(tok)) >= 0, 'reduction', inst, where, 'the bounds come from %s' % show(tok))
    # everything else is an internal error
    for p in I.paths:
        if p.end[0] == 'ret':
            for k in (DUP, OR, MACRO, CLOSE, END):
                if consistent(p, {T: k}):
                    ctx.check(False, 'reduction', '%s:%s' % (o, NAMES[k]), where, 'a %s alone is reduced' % NAMES[k])


def taken(v, stack):
    n = 0
    while v != stack:
        if not isinstance(v, tuple):
            return None
        if v[0] == 'mut' and v[1] == 'pop':
            n, v = n + 1, v[2]
        elif v[0] == 'upd':
            v = v[1]
        else:
            return None
    return n


def counters(I, h):
    """{term: value at the first round} of everything that grows by one a round"""
    out = {}
    blk = {n: b for b, n in I.hnum.items()}[h]
    ents = [e[2] for p in I.paths for e in p.ev if e[0] == 'loop' and e[1] == h]
    backs = [p for p in I.paths if p.end == ('back', h)]
    for P in I.classes[blk]:
        ph = ('phi', h, P)
        es = {repr(e.get(P)): e.get(P) for e in ents}
        if len(es) != 1:
            continue
        e = list(es.values())[0]
        if isinstance(e, int) and all(P in b.ret and add(b.ret[P], ph, -1) == 1 for b in backs):
            out[ph] = e
        elif e == ('empty',) and all(grown(I, b.ret.get(P), ph) for b in backs):
            out[('size', ph)] = 0
    return out


def grown(I, v, ph):
    return isinstance(v, tuple) and v[0] in ('push', 'upd') and (v[0] == 'push' and v[1] == ph or v[0] == 'upd' and grown(I, v[1], ph))


def performed(I, p):
    ops, push = [], []
    for e in p.ev:
        if e[0] != 'call':
            continue
        if e[1]['n'] in TREE and e[2] == THIS:
            ops.append((e[1]['n'], tuple(e[3])))
        elif e[2] == TS and e[1]['n'] in ('push', 'emplace'):
            x = e[3][0] if e[3] else None
            t = None
            if isinstance(x, tuple) and x[0] == 'alloc':
                a = x[3] if len(x) > 3 else ()
                t = a[0] if a and isinstance(a[0], int) else 0 if not a else None
            push.append(t)
    return ops, push


# ---------------------------------------------------------------- what tokenise() makes of set operators and macros
def tokens(ctx, F, f):
    o, where = gname(f), f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, lambda g: g['n'] not in {'next', 'precedence', 'strip_parens', 'prune', 'split', 'narrow', 'remove', 'insert', 'record_abstemious',
                                                  'index', 'precedence_string', 'find', 'check_empty'})
    rounds = []
    for p in I.paths:
        nx = [e for e in p.ev if e[0] == 'call' and e[1]['n'] == 'next']
        if nx:
            rounds.append((p, nx[-1]))
    if not rounds:
        raise CheckError('%s: no tokens read' % o)
    p, nx = rounds[0]
    if not (len(nx[3]) == 3 and all(a[0] == 'addr' for a in (nx[3][0], nx[3][2]))):
        raise CheckError('%s: tokeniser call not understood' % o)
    Lp, Rp = nx[3][0][1], nx[3][2][1]
    if Lp[0] != 'i':
        raise CheckError('%s: previous token is not the last of the vector' % o)
    TV = Lp[1]
    terms = set()
    for p, _ in rounds:
        for a in p.facts.atoms:
            if a[0] in ('eq', 'lt'):
                terms |= {t for t, _ in a[1]}

    def field(P, n):
        r = [t for t in terms if t[0] in ('in', 'hv', 'phi') and t[-1] == ('f', P, n)]
        return r
    Lt, Rt = field(Lp, '_type'), field(Rp, '_type')
    pt = [t for t in terms if t[0] == 'm' and t[1] == 'precedence']
    h = [e[1] for e in rounds[0][0].ev if e[0] == 'loop'][0]
    # the pending operator: what a DIFF token leaves behind
    dv = {P for p, _ in rounds if p.end == ('back', h) for P, v in p.ret.items() if P[0] == 'v' and P != TV and '_extra' in repr(v) and repr(Rp) in repr(v) and "'i'" in repr(v)}
    if not ctx.check(pt, 'checked', o, where, 'no token is compared with the one before it'):
        return
    if not Rt or not Lt or len(dv) != 1 or len(pt) != 1:
        raise CheckError('%s: round not understood (%d %d %d %d)' % (o, len(Rt), len(Lt), len(dv), len(pt)))
    Dp = dv.pop()
    D = ('phi', h, Dp)
    phiT = ('phi', h, TV)
    sec = sorted({t for t in terms if t[0] == 'size' and vec(t[1]) and repr(Rp) in repr(t)}, key=repr)
    own = sorted({t for t in terms if t[0] == 'size' and vec(t[1]) and repr(Rp) not in repr(t)}, key=repr)
    mname = sorted({t for t in terms if t[0] == 'size' and t[1][0] == 'phi' and t[1][1] == h and t[1] != phiT}, key=repr)
    look = [t for t in terms if t[0] == 'm' and t[1] == 'find' and repr(Rp) in repr(t)]
    if len(sec) != 1 or len(look) != 1:
        raise CheckError('%s: macro lookup not understood' % o)
    sec, look = sec[0], look[0]
    m0 = [t for t in terms if 'second' in repr(t) and repr(t).endswith("'_type'))") and t[0] in ('in', 'fld') and elem(t) == 1]
    ml = [t for t in terms if 'second' in repr(t) and repr(t).endswith("'_type'))") and t[0] in ('in', 'fld') and elem(t) == 'last']
    for p, _ in rounds:
        if p.end[0] == 'throw':
            continue
        if consistent(p, dict([(t, CHARSET) for t in Rt])):
            bad = consistent(p, dict([(t, CHARSET) for t in Rt] + [(pt[0], NONE)]))
            ctx.check(not bad, 'checked', o, where, 'a token is accepted without looking at its precedence')
    base = {pt[0]: GT}

    def ends(env):
        e = dict(base)
        e.update(env)
        return [(p, c) for p, c in rounds if p.end[0] != 'unreach' and consistent(p, e)]

    def go(inst, rule, env, want):
        ps = ends(env)
        if not ctx.check(ps, rule, o + ':' + inst, where, 'no way through'):
            return
        for p, c in ps:
            msg = want(p, c)
            ctx.check(not msg, rule, o + ':' + inst, where, '%s\n%s' % (msg, showpath(p)))
    R = lambda k: {t: k for t in Rt}
    L = lambda k: {t: k for t in Lt}

    def throws(p, c):
        return '' if p.end[0] == 'throw' else 'is accepted'

    def tvec(p):
        return p.ret.get(TV, phiT) if p.end[0] == 'back' else I.val(p, TV)
    # {+} or {-} itself
    go('operator-twice', 'set-operator', {**R(DIFF), D: 43}, throws)
    none = {t: 0 for t in mname}
    if len(mname) != 1 or len(own) != 1:
        raise CheckError('%s: name of the last macro not understood' % o)
    go('operator-after-macro', 'set-operator', {**R(DIFF), D: 0, mname[0]: 3, own[0]: 4}, throws)

    def pending(p, c):
        if p.end[0] != 'back':
            return 'is not accepted'
        if not same(tvec(p), phiT, c):
            return 'changes the tokens to %s' % show(tvec(p))
        return '' if Dp in p.ret and '_extra' in repr(p.ret[Dp]) else 'is forgotten'
    go('operator', 'set-operator', {**R(DIFF), **L(CHARSET), D: 0, **none}, pending)
    go('operator-single-macro', 'set-operator', {**R(DIFF), **L(CHARSET), D: 0, mname[0]: 3, own[0]: 3}, pending)
    # a plain token without a pending operator
    for k in (CHARSET, OR, OPEN, STAR, END):
        def plain(p, c):
            if p.end[0] == 'throw':
                return '' if k == END else 'is not accepted'
            if p.end[0] == 'back' and p.ret.get(mname[0][1][2]) != ('empty',):
                return 'the last macro is still remembered after a plain token'
            return '' if appended(tvec(p), phiT, Rp) else 'the tokens become %s' % show(tvec(p))
        if k != END:
            go('plain-' + NAMES[k], 'set-operator', {**R(k), D: 0}, plain)
    # the token after an operator
    for d, name in ((43, 'plus'), (45, 'minus')):
        for l in (BEGIN, CLOSE, STAR, BOL, OPEN, OR):
            go('%s-after-%s' % (name, NAMES[l]), 'set-operator', {**R(CHARSET), **L(l), D: d}, throws)
        for r in (OPEN, STAR, OR, EOL, END, CLOSE):
            go('%s-before-%s' % (name, NAMES[r]), 'set-operator', {**R(r), **L(CHARSET), D: d}, throws)

        def combine(p, c, d=d, src=None):
            if p.end[0] == 'throw':
                return '' if d == 45 else 'is not accepted'
            if p.end[0] != 'back':
                return 'ends the rule'
            calls = [e for e in p.ev if e[0] == 'call' and e[1]['n'] in ('insert', 'remove') and e[2] == ('f', Lp, '_str')]
            if [e[1]['n'] for e in calls] != ['insert' if d == 43 else 'remove']:
                return 'performs %s' % [e[1]['n'] for e in calls]
            if repr(src or Rp) not in repr(calls[0][3]):
                return 'combines with %s' % show(calls[0][3])
            if p.ret.get(Dp, D) != 0:
                return 'the operator stays pending'
            return '' if same(tvec(p), phiT, c) else 'the tokens become %s' % show(tvec(p))
        go(name, 'set-operator', {**R(CHARSET), **L(CHARSET), D: d}, combine)
        menv = {**R(MACRO), **L(CHARSET), D: d, look: 1, ('begin', ('f', THIS, '_macro_map')): 0, ('size', ('in', ('f', THIS, '_macro_map'))): 9}
        go(name + '-macro', 'set-operator', {**menv, sec: 3, **{t: CHARSET for t in m0 + ml}}, lambda p, c, d=d: combine(p, c, d, look))
        go(name + '-multiple-macro', 'set-operator', {**menv, sec: 4}, throws)
        go(name + '-other-macro', 'set-operator', {**menv, sec: 3, **{t: BOL for t in m0 + ml}}, throws)

    def emptied(p, c):
        e = [a for a, pol in p.facts.atoms.items() if a[0] == 'eq' and a[2] == 0 and a[1][0][0][0] == 'size' and '_ranges' in repr(a) and repr(Lp) in repr(a)]
        return '' if e and (p.facts.query(e[0]) is (p.end[0] == 'throw')) else 'emptiness of the difference is not decided'
    go('minus-empty', 'set-operator', {**R(CHARSET), **L(CHARSET), D: 45}, emptied)
    # macros
    MM = ('f', THIS, '_macro_map')
    size0 = ('size', phiT)
    go('unknown', 'macro', {**R(MACRO), look: 9, ('begin', MM): 0, ('size', ('in', MM)): 9}, throws)
    re_, cur = ('v', f['params'][0]['n']), [t for t in terms if t[-1][:1] == ('f',) and t[-1][2] == '_curr']
    if not ctx.check(len(cur) == 1, 'macro', o + ':position', where, 'whether a macro ends the rule is not looked at'):
        return
    if not m0 or not ml:
        raise CheckError('%s: macro expansion not understood' % o)
    for first in (True, False):
        for last in (True, False):
            for n, a, b in ((3, CHARSET, CHARSET), (3, BOL, BOL), (3, EOL, EOL), (4, CHARSET, STAR), (4, BOL, CHARSET), (4, CHARSET, EOL), (4, BOL, EOL), (5, OPEN, EOL),
                            (6, BOL, CLOSE)):
                env = {**R(MACRO), D: 0, look: 1, ('begin', MM): 0, ('size', ('in', MM)): 9, size0: 1 if first else 4, ('begin', re_): 0, ('size', ('in', re_)): 7,
                       cur[0]: 7 if last else 5, sec: n}
                env.update({t: a for t in m0})
                env.update({t: b for t in ml})
                bol, eol = first and a == BOL, last and b == EOL
                caret, dollar = a == BOL and not bol, b == EOL and not eol
                want = ([94] if caret else []) + [(1 + caret, -1 - dollar)] + ([36] if dollar else [])
                if n > 3 and not (bol or eol):
                    want = ['('] + want + [')']

                def expanded(p, c):
                    if p.end[0] == 'throw':
                        return 'is not accepted'
                    if p.end[0] == 'ret':       # only after an END token, which no macro's own tokens contain
                        return ''
                    got = flatten(I, p, tvec(p), phiT, sec)
                    return '' if got == want else 'stands for %s, not %s' % (got, want)
                go('%s%s-%d-%s-%s' % ('first-' * first, 'last-' * last, n, NAMES[a], NAMES[b]), 'macro', env, expanded)


def vec(v):
    """v is the token vector of a macro"""
    return v[0] == 'in' and v[1][:1] == ('f',) and v[1][2] == 'second' and "'find'" in repr(v)


def elem(t):
    """which element of a macro's tokens the type term t belongs to"""
    x = t[1] if t[0] == 'in' else t
    while x[0] in ('f', 'fld'):
        if x[0] == 'f' and x[1][0] == 'i' or x[0] == 'fld' and x[1][0] == 'idx':
            i = x[1][2]
            if isinstance(i, int):
                return i
            return 'last' if i[0] == 'lin' and i[2] == -2 and i[1][0][0][0] == 'size' else None
        x = x[1]
    return None


def same(v, ph, c):
    while isinstance(v, tuple) and v[0] == 'upd':
        v = v[1]
    return v == ph


def appended(v, ph, Rp):
    return isinstance(v, tuple) and v[0] == 'push' and same(v[1], ph, None) and repr(Rp) in repr(v[2])


def flatten(I, p, v, ph, sec):
    """the tokens added to vector ph by value v: '(' / ')' / a literal's code / (first, last) of the macro's tokens"""
    out = []
    while not same(v, ph, None):
        if v[0] == 'upd':
            v = v[1]
        elif v[0] == 'push':
            out.insert(0, literal(p, v[2]))
            v = v[1]
        elif v[0] == 'mut' and v[1] == 'insert' and len(v[3]) == 3:
            pos, a, b = v[3]
            if add(pos, add(('begin', ph[2]), sizeof(v[2], ph)), -1) != 0:
                return 'inserted at %s' % show(pos)
            d = add(b, add(a, sec), -1)
            s = [t for t in ([a] if a[0] == 'begin' else [t for t, _ in a[1]]) if t[0] == 'begin']
            if len(s) != 1 or not isinstance(d, int):
                return 'range %s %s' % (show(a), show(b))
            a0 = add(a, s[0], -1)
            if a0 + d > -1 or not isinstance(a0, int):
                return 'range %s %s' % (show(a), show(b))
            out.insert(0, (a0, a0 + d))
            v = v[2]
        else:
            return 'unknown %s' % show(v)
    return out


def sizeof(v, ph):
    n = 0
    while v != ph:
        if v[0] == 'push':
            n += 1
        v = v[1]
    return add(('size', ph), n)


def literal(p, x):
    """what kind of token value x is"""
    s = dict((k[0][1] if len(k) == 1 and k[0][0] == 'f' else k, w) for k, w in x[2]) if x[0] == 'upd' else {}
    t = s.get('_type')
    if t in (OPEN, CLOSE):
        return '(' if t == OPEN else ')'
    if t == CHARSET:
        st = s.get('_str')
        return code(p, st[-1] if isinstance(st, tuple) else None)
    return '?'


def code(p, P):
    """the only character inserted into the set at P"""
    out = set()
    for e in p.ev:
        if e[0] == 'call' and e[1]['n'] == 'insert' and e[2] == P and e[3]:
            x = e[3][0]
            out |= {code(p, x[2])} if isinstance(x, tuple) and x[0] == 'hv' else ints(x)
    return out.pop() if len(out) == 1 else '?'


def ints(x):
    if isinstance(x, bool) or not isinstance(x, tuple):
        return {x} if isinstance(x, int) and not isinstance(x, bool) else set()
    if x[0] == 'upd':
        return set().union(*(ints(w) for _, w in x[2]))
    return set().union(*(ints(w) for w in x))
