"""C05: the position sets of the syntax tree, its copies, and what the operators and quantifiers make of their operands."""
from record_model import *
from evalx import value, consistent, fact
from c26_features import gname
from loops import Loops

KEEP = ('append_followpos', 'greedy', 'copy', 'traverse', 'copy_node', 'what_type', 'end_state', 'token', 'reduce', 'fixup_bol', 'precedence',
        'precedence_string', 'null_token_', 'slice_range', 'push_ranges')
KINDS = ('sequence', 'selection', 'iteration', 'leaf', 'end')
TREES = ('f', THIS, '_tree_node_stack')
INF = 10 ** 9
LAZY = (16, 18, 20, 22)     # ?? *? +? {n,m}?


def run(ctx):
    ctx.rule('sets', 'every node gets the nullability and the first and last positions its kind defines', 20)
    ctx.rule('follow', 'following positions are added exactly where a sequence or an iteration joins two parts', 8)
    ctx.rule('leaf', 'a leaf keeps its character set, its following positions and its greediness, an end node what the rule says', 10)
    ctx.rule('copy', 'a copy of a subtree has the same shape and the same leaves', 15)
    ctx.rule('operator', 'sequence and alternative take the two latest operands, in order, and put one node in their place', 6)
    ctx.rule('count', 'every quantifier repeats its operand exactly the numbers of times it says', 60)
    ctx.rule('unshared', 'no node is used at two places of a tree', 20)
    ctx.rule('greediness', 'a quantifier makes what it adds, and the first positions it can skip, as greedy as it is', 10)
    ctx.rule('root', 'the tree of a rule is its expression followed by the end node that carries the rule', 8)
    F = ctx.facts('d_core')
    seen = set()
    for f in [f for f in F.fns.values() if 'body' in f]:
        cls = f.get('cls', '')
        for k in KINDS:
            if cls.startswith('lexertl::detail::basic_%s_node<' % k):
                n = f['n']
                if n == 'basic_%s_node' % k and f['params'] and not any('basic_%s_node' % k in p['t'] for p in f['params']):
                    constructor(ctx, F, f, k)
                elif n == 'traverse':
                    traverse(ctx, F, f, k)
                elif n == 'copy_node':
                    copynode(ctx, F, f, k, cls)
                elif k in ('leaf', 'end') and n != 'what_type' and not n.startswith('~'):
                    accessor(ctx, F, f, k)
                elif n == 'what_type':
                    kind(ctx, F, f, k)
                else:
                    continue
                seen.add((k, n))
        if cls.startswith('lexertl::detail::basic_node<'):
            if f['n'] == 'copy':
                copyloop(ctx, F, f)
            elif f['n'] in ('nullable', 'firstpos', 'lastpos'):
                I = run_(ctx, F, f)
                for p in rets(I):
                    want = ('f', THIS, '_' + f['n'])
                    ctx.check(p.ret in (('in', want), ('addr', want)), 'leaf', oname(f), f['q'], 'gives %s' % show(p.ret))
        if cls.startswith('lexertl::detail::basic_parser<'):
            n = f['n']
            if n in ('perform_or', 'sequence'):
                operator(ctx, F, f)
            elif n in ('optional', 'zero_or_more', 'one_or_more', 'repeatn'):
                quantifier(ctx, F, f)
            elif n == 'parse':
                root(ctx, F, f)
            elif n == 'fixup_bol':
                fixup(ctx, F, f)
            elif n in ('push_range', 'bol', 'eol', 'charset') and leafmaker(ctx, F, f):
                pass
            else:
                continue
            seen.add(n)
    need = {(k, n) for k in KINDS for n in ('traverse', 'copy_node', 'basic_%s_node' % k)} | {
        'perform_or', 'sequence', 'optional', 'zero_or_more', 'one_or_more', 'repeatn', 'parse', 'fixup_bol'}
    if need - seen:
        raise CheckError('not found: %s' % sorted(map(str, need - seen)))
    ctx.assume('numbers of repetitions are compared for bounds up to five; they depend on the bounds only through counted loops and comparisons')


def run_(ctx, F, f):
    return interp(ctx, F, f, lambda g: g['n'] not in KEEP)


def rets(I):
    return [p for p in I.paths if p.end[0] == 'ret']


def oname(f):
    return gname(f) + '::' + f['n']


def where(f):
    return f['q'] + ':%d' % f['l']


# ---------------------------------------------------------------- position sets
def uncast(v):
    while isinstance(v, tuple) and v[0] == 'cast':
        v = v[2]
    return v


def spread(I, L, v):
    """what a vector value holds: ('all', place) for everything in another vector, ('one', x); None if unknown"""
    if v == ('empty',):
        return []
    if not isinstance(v, tuple):
        return None
    if v[0] == 'push':
        o = spread(I, L, v[1])
        return None if o is None else o + [('one', v[2])]
    if v[0] == 'mut' and v[1] in ('insert', 'assign'):
        a = v[3][-2:]
        o = spread(I, L, v[2]) if v[1] == 'insert' else []
        if o is None or len(a) < 2:
            return None
        first, n = a[0], add(a[1], a[0], -1)
        if first[0] == 'begin' and n == ('size', ('in', first[1])):
            return o + [('all', first[1])]
        return None
    if v[0] == 'in':
        return [('all', v[1])]
    if v[0] == 'phi':
        h, P = v[1], v[2]
        src = L.container(h)
        ents = {repr(e.get(P)): e.get(P) for _, _, e in L.entries(h)}
        if src is None or len(ents) != 1 or not L.backs(h):
            return None
        for b in L.backs(h):
            x = b.ret.get(P)
            if not (isinstance(x, tuple) and x[0] == 'push' and x[1] == v and L.element(h, x[2])):
                return None
        o = spread(I, L, list(ents.values())[0])
        return None if o is None else o + [('all', src)]
    return None


def positions(I, L, p, name):
    s = spread(I, L, I.val(p, ('f', THIS, name)))
    return None if s is None else sorted(map(repr, s)) if len(set(s)) == len(s) else None


def sub(f, i, name):
    """position list of the i-th operand"""
    return ('f', ('d', ('in', ('v', f['params'][i]['n']))), name)


def null(f, i):
    return ('in', sub(f, i, '_nullable'))


def constructor(ctx, F, f, k):
    o, w = oname(f), where(f)
    I = run_(ctx, F, f)
    L = Loops(I)
    first, last = (lambda i: ('all', sub(f, i, '_firstpos'))), (lambda i: ('all', sub(f, i, '_lastpos')))
    me = ('one', ('addr', THIS))
    for p in rets(I):
        nl = I.val(p, ('f', THIS, '_nullable'))
        if k in ('sequence', 'selection'):
            for a in (0, 1):
                for b in (0, 1):
                    env = {null(f, 0): a, null(f, 1): b}
                    if not consistent(p, env):
                        continue
                    if k == 'sequence':
                        wn, wf, wl = a & b, [first(0)] + [first(1)] * a, [last(1)] + [last(0)] * b
                    else:
                        wn, wf, wl = a | b, [first(0), first(1)], [last(0), last(1)]
                    case(ctx, o, '%d%d' % (a, b), w, I, L, p, value(nl, env), wn, wf, wl)
        elif k == 'iteration':
            case(ctx, o, '', w, I, L, p, value(nl, {}), 1, [first(0)], [last(0)])
        elif k == 'leaf':
            t = ('in', ('v', f['params'][0]['n']))
            nt = {'unsigned short': 65535, 'unsigned char': 255, 'unsigned int': 2 ** 32 - 1, 'unsigned long': 2 ** 64 - 1}.get(bare(f['params'][0]['t']))
            if nt is None:
                raise CheckError('leaf of %s' % f['params'][0]['t'])
            for tv in (0, 1, nt - 2, nt - 1, nt):
                if consistent(p, {t: tv}):
                    case(ctx, o, '%d' % tv, w, I, L, p, value(nl, {t: tv}), int(tv == nt), [] if tv == nt else [me], [] if tv == nt else [me])
            stored(ctx, f, I, p, o, w, {'_token': 0, '_greedy': 1})
        else:
            case(ctx, o, '', w, I, L, p, value(nl, {}), 0, [me], [me])
            stored(ctx, f, I, p, o, w, {'_id': 0, '_user_id': 1, '_unique_id': 2, '_next_dfa': 3, '_push_dfa': 4, '_pop_dfa': 5, '_greedy': 6})
        if k in ('leaf', 'end'):
            ctx.check(I.val(p, ('f', THIS, '_followpos')) == ('empty',), 'follow', o + ':start', w, 'starts with following positions')
        else:
            stored(ctx, f, I, p, o, w, {'_left': 0, '_right': 1} if k != 'iteration' else {'_next': 0, '_greedy': 1})
    joins(ctx, F, f, k, I, L, o, w)


def stored(ctx, f, I, p, o, w, m):
    for n, i in m.items():
        v = I.val(p, ('f', THIS, n))
        ctx.check(uncast(v) == ('in', ('v', f['params'][i]['n'])), 'leaf', o + ':' + n, w, 'keeps %s' % show(v))


def case(ctx, o, n, w, I, L, p, nl, wn, wf, wl):
    ctx.check(nl == wn, 'sets', '%s:nullable:%s' % (o, n), w, 'is %s' % show(nl))
    for name, want in (('_firstpos', wf), ('_lastpos', wl)):
        got = positions(I, L, p, name)
        ctx.check(got == sorted(map(repr, want)), 'sets', '%s:%s:%s' % (o, name, n), w, 'holds %s, not %s' % (got, want))


def joins(ctx, F, f, k, I, L, o, w):
    """every call of append_followpos / greedy made by a constructor"""
    found = {}
    for p in I.paths:
        for e in p.ev:
            if e[0] == 'call' and e[1]['n'] in ('append_followpos', 'greedy'):
                h = loopof(L, e[2][1] if e[2][0] == 'd' else None)
                if h is None:
                    ctx.bad('follow', o + ':' + e[1]['n'], w, 'called for %s' % show(e[2]))
                    continue
                found.setdefault(e[1]['n'], {}).setdefault(h, set()).add((spreadof(I, L, e[3][0]) if e[1]['n'] == 'append_followpos' else e[3][0]))
    for name in ('append_followpos', 'greedy'):
        hs = found.get(name, {})
        want = {'sequence': [('append_followpos', (('all', sub(f, 0, '_lastpos')),), (('all', sub(f, 1, '_firstpos')),))],
                'iteration': [('append_followpos', (('all', sub(f, 0, '_lastpos')),), (('all', sub(f, 0, '_firstpos')),)),
                              ('greedy', (('all', sub(f, 0, '_firstpos')),), ('in', ('v', f['params'][-1]['n'])))]}.get(k, [])
        want = [x for x in want if x[0] == name]
        ok = len(hs) == len(want)
        got = []
        for h, args in hs.items():
            src = walked(I, L, h)
            every = all(sum(1 for e in after(b, h) if e[0] == 'call' and e[1]['n'] == name) == 1 for b in L.backs(h))
            reached = all(any(e[0] == 'loop' and e[1] == h for e in p.ev) for p in rets(I))
            got.append((name, src, args.pop() if len(args) == 1 else None))
            ok = ok and every and reached
        ctx.check(ok and sorted(map(repr, got)) == sorted(map(repr, want)), 'follow', o + ':' + name, w, 'joins %s, not %s' % (got, want))


def after(p, h):
    k = max(i for i, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == h)
    return p.ev[k + 1:]


def loopof(L, v):
    return next((h for h, d in L.desc.items() if d and not d['down'] and isinstance(v, tuple) and (
        v == ('in', ('d', d['phi'])) or v[0] == 'in' and v[1][0] == 'i' and v[1][2] == d['phi'] or v[0] == 'idx' and v[2] == d['phi'])), None)


def spreadof(I, L, v):
    if isinstance(v, tuple) and v[0] == 'addr':
        v = ('in', v[1])
    s = spread(I, L, v)
    return None if s is None else tuple(s)


def walked(I, L, h):
    """what the vector loop h traverses completely holds when the loop starts"""
    d = L.desc[h]
    s, b = d['start'], d['bound']
    n = add(b, s, -1)
    if not (isinstance(n, tuple) and n[0] == 'size'):
        return None
    if isinstance(s, tuple) and s[0] == 'begin' or s == 0:
        return spreadof(I, L, n[1])
    return None


# ---------------------------------------------------------------- leaves and end nodes
def accessor(ctx, F, f, k):
    o, w = oname(f), where(f)
    n = f['n']
    if n.startswith('basic_') or n == 'operator=':
        return
    I = run_(ctx, F, f)
    L = Loops(I)
    fields = {x['n'] for x in F.recbyt[f['cls']]['fields']}
    for p in rets(I):
        if n == 'append_followpos':
            v = spread(I, L, I.val(p, ('f', THIS, '_followpos')))
            arg = ('v', f['params'][0]['n'])
            ctx.check(v is not None and v[-1:] == [('all', arg)] and v[:-1] in ([('all', ('f', THIS, '_followpos'))],), 'follow', o, w, 'becomes %s' % v)
        elif n == 'greedy' and f['params']:
            old, new = ('in', ('f', THIS, '_greedy')), ('in', ('v', f['params'][0]['n']))
            for a in (0, 1, 2):
                for b in (0, 1, 2):
                    env = {old: a, new: b}
                    if consistent(p, env):
                        v = value(I.val(p, ('f', THIS, '_greedy')), env)
                        ctx.check(v == (2 if a == 2 else b), 'greediness', '%s:%d%d' % (o, a, b), w, 'becomes %s' % show(v))
        elif n == 'end_state':
            ctx.check(p.ret == 1, 'leaf', o, w, 'gives %s' % show(p.ret))
        elif '_' + n in fields:
            P = ('f', THIS, '_' + n)
            ctx.check(uncast(p.ret) in (('in', P), ('addr', P)), 'leaf', o, w, 'gives %s' % show(p.ret))


def kind(ctx, F, f, k):
    I = run_(ctx, F, f)
    for p in rets(I):
        ctx.check(p.ret == ['leaf', 'sequence', 'selection', 'iteration', 'end'].index(k), 'leaf', oname(f), where(f), 'is %s' % show(p.ret))


# ---------------------------------------------------------------- copies
def pushedon(v, P):
    out = []
    while isinstance(v, tuple) and v[0] == 'push':
        out.insert(0, v[2])
        v = v[1]
    return out if v == ('in', P) else None


def traverse(ctx, F, f, k):
    o, w = oname(f), where(f)
    I = run_(ctx, F, f)
    nodes_, ops = ('v', f['params'][0]['n']), ('v', f['params'][1]['n'])
    kids = [('in', ('f', THIS, x)) for x in {'sequence': ('_right', '_left'), 'selection': ('_right', '_left'), 'iteration': ('_next',)}.get(k, ())]
    for p in rets(I):
        if not kids:
            ctx.check(p.ret == 0 and not [e for e in p.ev if e[0] == 'write' and e[1] != ('v', '$ret')], 'copy', o, w, 'goes on below a leaf')
            continue
        a, b = pushedon(I.val(p, nodes_), nodes_), pushedon(I.val(p, ops), ops)
        ctx.check(p.ret == 1 and a == kids, 'copy', o + ':children', w, 'goes on with %s' % a)
        if len(kids) == 1:
            ctx.check(b == [1], 'copy', o + ':pending', w, 'notes %s' % b)
            continue
        t = ('m', 'what_type', ('in', ('d', kids[0])), ())
        for x in range(5):
            if consistent(p, {t: x}):
                ctx.check(b == ([1, 0] if x in (1, 2, 3) else [1]), 'copy', '%s:pending:%d' % (o, x), w, 'notes %s' % b)


def operand(v, S):
    """how far below the top of stack S (as it was) value v was: 1 is the top"""
    if not isinstance(v, tuple):
        return None
    if v[0] == 'in' and v[1][0] == 'i' and v[1][1] == S:
        n, base = 0, ('in', S)
        i = v[1][2]
    elif v[0] == 'idx':
        n, base = popped(v[1], S)
        i = v[2]
        if n is None:
            return None
    else:
        return None
    szs = [t for t, c in i[1] if t[0] == 'size'] if isinstance(i, tuple) and i[0] == 'lin' else []
    if len(szs) != 1 or i[1] != ((szs[0], 1),):
        return None
    m, _ = popped(szs[0][1], S)
    return None if m is None else m - i[2]


def popped(v, S):
    n = 0
    while isinstance(v, tuple):
        if v == ('in', S):
            return n, v
        if v[0] == 'mut' and v[1] == 'pop':
            n, v = n + 1, v[2]
        elif v[0] == 'upd':
            v = v[1]
        else:
            break
    return None, None


def stackafter(I, p, S):
    """(operands gone, nodes put on) : stack S at the end of partition p, or None"""
    v = base = I.val(p, S)
    while isinstance(base, tuple) and base[0] in ('upd', 'mut', 'push'):
        base = base[2] if base[0] == 'mut' else base[1]
    return stackval(v, S, base)


def stackval(v, S, base=None):
    base = base or ('in', S)
    if v == base:
        return 0, []
    if not isinstance(v, tuple):
        return None
    if v[0] == 'push':
        r = stackval(v[1], S, base)
        return r and (r[0], r[1] + [v[2]])
    if v[0] == 'mut' and v[1] == 'pop':
        r = stackval(v[2], S, base)
        return r and ((r[0], r[1][:-1]) if r[1] else (r[0] + 1, []))
    if v[0] == 'upd':
        r = stackval(v[1], S, base)
        if r is None:
            return None
        n, items = r
        items = list(items)
        for path, x in v[2]:
            if len(path) != 1 or path[0][0] != 'i':
                return None
            i = path[0][1]
            if isinstance(i, int) or i[0] != 'lin' or len(i[1]) != 1 or i[1][0][0][0] != 'size':
                return None
            q = stackval(i[1][0][0][1], S, base)
            if q is None:
                return None
            at = -q[0] + len(q[1]) + i[2] + n      # index into items
            if at == -1 and not items:
                n, items = n + 1, [x]
            elif 0 <= at < len(items):
                items[at] = x
            else:
                return None
        return n, items
    return None


def copynode(ctx, F, f, k, cls):
    o, w = oname(f), where(f)
    I = run_(ctx, F, f)
    own, new, ops, down = [('v', p['n']) for p in f['params']] if len([p for p in f['params'] if p['n']]) == 4 else [('v', p['n']) for p in f['params']]
    if k == 'end':
        for p in rets(I):
            ctx.check(not [e for e in p.ev if e[0] == 'write'], 'copy', o, w, 'copies an end node')
        return
    for p in rets(I):
        st = stackafter(I, p, new)
        if k == 'leaf':
            ok = st and st[0] == 0 and len(st[1]) == 1 and st[1][0][0] == 'alloc' and 'basic_leaf_node<' in st[1][0][2] and \
                [uncast(a) for a in st[1][0][3]] == [('in', ('f', THIS, '_token')), ('in', ('f', THIS, '_greedy'))]
            ctx.check(ok and owned(I, p, own, st[1][0]), 'copy', o, w, 'makes %s' % (st,))
            ctx.check(not [e for e in p.ev if e[0] == 'write' and e[1] in (ops, down) and e[1][1]], 'copy', o + ':pending', w, 'touches what is pending')
            continue
        t = ('in', ('i', ops, ('lin', ((('size', ('in', ops)), 1),), -1)))
        go = stackafter(I, p, ops)
        ctx.check(go == (1, []), 'copy', o + ':pending', w, 'leaves %s pending' % (go,))
        for x in (0, 1):
            if not consistent(p, {t: x}):
                continue
            d = I.val(p, down)
            if not x:
                ctx.check(d == 1 and st == (0, []), 'copy', o + ':down', w, 'does not go down the other branch')
                continue
            want = (2, ('sequence', 'selection')) if k != 'iteration' else (1, ())
            ok = st and st[0] == want[0] and len(st[1]) == 1 and st[1][0][0] == 'alloc' and 'basic_%s_node<' % k in st[1][0][2] and d in (('in', down), 0)
            if ok:
                a = st[1][0][3]
                if k == 'iteration':
                    ok = operand(a[0], new) == 1 and uncast(a[1]) == ('in', ('f', THIS, '_greedy'))
                else:
                    got = [operand(y, new) for y in a]
                    ok = got == [2, 1] or k == 'selection' and got == [1, 2]
            ctx.check(ok and owned(I, p, own, st[1][0]), 'copy', o + ':node', w, 'makes %s' % (show(st[1][0]) if st and st[1] else st,))


def owned(I, p, P, node):
    """the node was put into the owning vector"""
    v = I.val(p, P)
    while isinstance(v, tuple):
        if v[0] == 'push':
            if v[2] == node:
                return True
            v = v[1]
        else:
            break
    return False


def copyloop(ctx, F, f):
    o, w = oname(f), where(f)
    I = run_(ctx, F, f)
    sites, news, finals_ = set(), set(), []
    for p in I.paths:
        if p.end[0] not in ('ret', 'back'):
            continue
        for e in p.ev:
            if e[0] != 'call' or e[1]['n'] not in ('traverse', 'copy_node'):
                continue
            t = e[2][1] if e[2][0] == 'd' else None
            S = topof(t)
            if S is None:
                raise CheckError('%s: %s' % (o, show(e[2])))
            A = [a[1] for a in e[3] if isinstance(a, tuple) and a[0] == 'addr']
            if e[1]['n'] == 'traverse':
                # what it returns decides whether to go on down
                D = [P for P in p.ret if uncast(p.ret[P]) == e[4]] if p.end[0] == 'back' else []
                ctx.check(A[:1] == [S] and len(A) == 2 and len(D) == 1, 'copy', o + ':traverse', w, 'traverses %s' % show(e[2]))
                sites.add(('traverse', S, A[1], D[0] if D else None))
            else:
                D = A[3] if len(A) == 4 else None
                if not ctx.check(D is not None, 'copy', o + ':copy_node', w, 'passes %s' % (A,)):
                    continue
                sites.add(('copy', S, A[2], D))
                new = A[1]
                news.add(new)
                d = [(q, pol) for q, pol in p.facts.atoms.items() if q[0] == 'eq' and len(q[1]) == 1 and q[2] == 0 and q[1][0][0][0] == 'hv' and q[1][0][0][2] == D]
                s = p.ret.get(S) if p.end[0] == 'back' else None
                s = I.val(p, S) if s is None else s
                gone = 0
                while isinstance(s, tuple) and s[0] == 'mut' and s[1] == 'pop':
                    gone, s = gone + 1, s[2]
                ctx.check(len(d) == 1 and gone == int(d[0][1]), 'copy', o + ':done', w, 'takes %d nodes off, going down: %s' % (gone, [x[1] for x in d]))
        if p.end[0] == 'ret':
            finals_.append(p)
    for p in finals_:
            ctx.check({topof(p.ret)} == news, 'copy', o + ':result', w, 'gives %s' % show(p.ret))
    ctx.check(len(sites) == 2 and len({x[1:] for x in sites}) == 1, 'copy', o + ':visit', w, 'visits %s' % sorted(map(str, sites)))
    start = [e for p in I.paths for e in p.ev if e[0] == 'loop'][0][2]
    S, O, D = next(iter(sites))[1:]
    ctx.check(start.get(S) == ('push', ('empty',), ('addr', THIS)) and start.get(D) in (1, True), 'copy', o + ':start', w, 'starts with %s' % show(start.get(S)))


def topof(t):
    """stack whose top t is"""
    if isinstance(t, tuple) and t[0] in ('in', 'phi', 'hv') and isinstance(t[-1], tuple) and t[-1][:1] == ('i',):
        i = t[-1][2]
        if isinstance(i, tuple) and i[0] == 'lin' and i[2] == -1 and len(i[1]) == 1 and i[1][0][0][0] == 'size':
            return t[-1][1]
    if isinstance(t, tuple) and t[0] == 'idx' and t[1][0] in ('phi', 'in', 'hv'):
        i = t[2]
        if isinstance(i, tuple) and i[0] == 'lin' and i[2] == -1 and i[1] == ((('size', t[1]), 1),):
            return t[1][-1]
    return None


# ---------------------------------------------------------------- operators of the parser
def nodeof(v):
    """(kind, arguments) of a new node"""
    if isinstance(v, tuple) and v[0] == 'alloc':
        for k in KINDS:
            if 'basic_%s_node<' % k in v[2]:
                return k, v[3]
    return None, ()


def operator(ctx, F, f):
    o, w = oname(f), where(f)
    I = run_(ctx, F, f)
    kind_ = 'sequence' if f['n'] == 'sequence' else 'selection'
    for p in rets(I):
        st = stackafter(I, p, TREES)
        k, a = nodeof(st[1][0]) if st and len(st[1]) == 1 else (None, ())
        got = [operand(x, TREES) for x in a]
        ok = st and st[0] == 2 and k == kind_ and (got == [2, 1] or k == 'selection' and got == [1, 2])
        ctx.check(ok, 'operator', o, w, 'makes %s of %s, %s operands gone' % (k, got, st and st[0]))
        ctx.check(ok and owned(I, p, ('f', THIS, '_node_ptr_vector'), st[1][0]), 'operator', o + ':owned', w, 'the node is not kept')


def leafmaker(ctx, F, f):
    if f['n'] not in ('push_range', 'bol', 'eol', 'charset'):
        return False
    o, w = oname(f), where(f)
    I = interp(ctx, F, f, lambda g: g['n'] not in KEEP + ('lookup', 'create_sequence'))
    some = False
    for p in rets(I):
        if any(e[0] == 'call' and e[1]['n'] in ('create_sequence', 'push_ranges') for e in p.ev):
            continue
        some = True
        st = stackafter(I, p, TREES)
        k, a = nodeof(st[1][0]) if st and st[0] == 0 and len(st[1]) == 1 else (None, ())
        ok = k == 'leaf' and a[1] == 1
        if ok and f['n'] in ('bol', 'eol'):
            idt = {65535: 65535, 255: 255}
            ok = isinstance(a[0], int) and (a[0] & 0xff) == (0xfe if f['n'] == 'bol' else 0xfd) and a[0] in (0xfe, 0xfd, 0xfffe, 0xfffd)
        elif ok:
            t = uncast(a[0])
            look = [e for e in p.ev if e[0] == 'call' and e[1]['n'] == 'lookup']
            ok = isinstance(t, tuple) and t[0] == 'res' and t[2] == 'lookup' and len(look) == 1
            if ok:
                arg = look[0][3][0]
                src = repr(('v', f['params'][0]['n']))
                ok = src in repr(arg)
        ctx.check(ok and owned(I, p, ('f', THIS, '_node_ptr_vector'), st[1][0]), 'operator', o, w, 'makes %s' % (st and [show(x) for x in st[1]]))
    return some


# ---------------------------------------------------------------- quantifiers: numbers of repetitions
class Unknown(Exception):
    pass


class Counts:
    """numbers of repetitions of the operand that the nodes of one partition stand for, as (least, most)"""

    def __init__(self, I, L, p, env):
        self.I, self.L, self.p, self.env = I, L, p, dict(env)
        self.copies = {e[4]: e[2][1] for e in p.ev if e[0] == 'call' and e[1]['n'] == 'copy' and e[2][0] == 'd'}

    def tree(self, v, copies=None):
        c = {**self.copies, **(copies or {})}
        v = uncast(v)
        if v in self.env:
            return self.env[v]
        if operand(v, TREES) == 1:
            return self.env['operand']
        if isinstance(v, tuple) and v[0] == 'phi' and topof(v) == TREES:
            i = v[2][2][1][0][0][1]
            if i == ('phi', v[1], TREES):
                return self.env.get(('top', v[1]))
        k, a = nodeof(v)
        if k == 'leaf':
            return (0, 0) if isinstance(a[0], int) and a[0] in (0xff, 0xffff, 0xffffffff) else None
        if k in ('sequence', 'selection'):
            x, y = self.tree(a[0], c), self.tree(a[1], c)
            if not ranges(x) or not ranges(y):
                return None
            if k == 'sequence':
                return x[0] + y[0], min(INF, x[1] + y[1])
            return None if x[1] + 1 < y[0] or y[1] + 1 < x[0] else (min(x[0], y[0]), max(x[1], y[1]))
        if k == 'iteration':
            x = self.tree(a[0], c)
            return (0, INF) if ranges(x) and x[0] <= 1 <= x[1] else None
        return self.tree(c[v], c) if v in c else None


    def top(self, v):
        """what the top node of a stack value stands for"""
        base = v
        while isinstance(base, tuple) and base[0] in ('upd', 'mut', 'push'):
            base = base[2] if base[0] == 'mut' else base[1]
        st = stackval(v, TREES, base)
        if st is None or st[0] != len(st[1]) or len(st[1]) > 1:
            raise CheckError('the operand stack becomes %s' % (st,))
        if st[1]:
            return self.tree(st[1][0])
        return self.env['operand'] if base == ('in', TREES) else self.env.get(('top', base[1])) if base[0] == 'phi' else None


def ranges(x):
    return isinstance(x, tuple) and len(x) == 2 and all(isinstance(n, int) for n in x)


def quantifier(ctx, F, f):
    o, w = oname(f), where(f)
    I = run_(ctx, F, f)
    L = Loops(I)
    g = ('in', ('v', f['params'][0]['n']))
    n = f['n']
    if n == 'repeatn':
        cases = [(a, c, b) for a in range(6) for c, b in [(0, 0), (1, 0)] + [(1, b) for b in range(max(a, 1), 6)]
                 if (a, c, b) not in ((0, 1, 0), (1, 1, 0), (0, 1, 1), (0, 0, 0)) and not (c and a == b)]
    else:
        cases = [{'optional': (0, 1), 'zero_or_more': (0, INF), 'one_or_more': (1, INF)}[n]]
    dig = digits(ctx, I, L, f, o, w) if n == 'repeatn' else None
    done = set()
    for c in cases:
        if n == 'repeatn':
            lo, comma, hi = c
            want = (lo, hi or INF) if comma else (lo, lo)
            env = dig(*c)
            name = '%s:{%d%s%s}' % (o, lo, ',' * comma, hi or '')
        else:
            want, env, name = c, {}, o
        env['operand'] = (1, 1)
        got = set()
        for p in rets(I):
            r = evaluate(I, L, p, env)
            if r is not False:
                got.add(r)
        ctx.check(got == {want}, 'count', name, w, 'repeats %s times, not %s' % (sorted(map(str, got)), want))
    for p in I.paths:
        if p.end[0] not in ('ret', 'back'):
            continue
        shared(ctx, I, L, p, o, w)
        greedy(ctx, I, L, p, o, w, g)


def digits(ctx, I, L, f, o, w):
    """which terms hold the two numbers and the comma; returns a function giving them values"""
    heads = []
    for h in sorted(L.block):
        bs = L.backs(h)
        for P in I.classes.get(L.block[h], ()):
            ph = L.phi(h, P)
            v = bs[0].ret.get(P) if bs else None
            if not (isinstance(v, tuple) and v[0] == 'lin' and v[2] == -48 and any(uncast(t)[0] == 'in' and uncast(t)[1][0] == 'd' for t, _ in v[1])):
                continue
            rest = add(v, mklin({ph: 10}, 0), -1)
            c = [t for t, _ in rest[1]][0] if isinstance(rest, tuple) and rest[0] == 'lin' and len(rest[1]) == 1 else None
            ch = uncast(c)
            okd = c is not None and rest[1][0][1] == 1 and rest[2] == -48 and isinstance(ch, tuple) and ch[0] == 'in' and ch[1][0] == 'd'
            ptr = ch[1][1] if okd else None
            okd = okd and isinstance(ptr, tuple) and ptr[:2] == ('phi', h)
            for b in bs:
                okd = okd and b.ret.get(P) == v and add(b.ret.get(ptr[2], 0), ptr, -1) == 1
                for x in (47, 48, 57, 58):
                    okd = okd and consistent(b, {ch: x}) == (48 <= x <= 57)
            ctx.check(okd, 'count', '%s:number:%d' % (o, len(heads)), w, 'reads %s' % show(v))
            heads.append((h, P, ph, ptr, ch))
    if len(heads) != 2 or any(x[3] is None for x in heads):
        raise CheckError('%s: two numbers expected' % o)
    (h0, P0, a, p0, c0), (h1, P1, b, p1, c1) = heads
    for p, k, ent in L.entries(h0):
        ctx.check(ent[P0] == 0 and isinstance(ent[p0[2]], tuple) and "'_extra'" in repr(ent[p0[2]]) and (ent[p0[2]][0] == 'm' and ent[p0[2]][1] == 'c_str' or
                  'begin' in repr(ent[p0[2]]) or 'addr' in repr(ent[p0[2]]) or 'data' in repr(ent[p0[2]])), 'count', o + ':text', w, 'reads %s' % show(ent[p0[2]]))
    for p, k, ent in L.entries(h1):
        d = add(ent[p1[2]], p0, -1)
        ok = ent[P1] == 0 and all(not consistent(p, {c0: x}) or d == s for x, s in ((44, 1), (0, 0)))
        ctx.check(ok, 'count', o + ':text2', w, 'the second number starts %s on' % show(d))

    def env(lo, comma, hi):
        return {a: lo, b: hi, c0: 44 if comma else 0, c1: 0, 'skip': (h0, h1)}
    return env


def evaluate(I, L, p, env):
    """repetitions of the single node partition p leaves in place of the operand; False if p is not taken"""
    C = Counts(I, L, p, env)
    for e in p.ev:
        if e[0] == 'loop' and e[1] not in env.get('skip', ()):
            enter(I, L, C, e[1], e[2])
    if not consistent(p, C.env):
        return False
    return C.top(I.val(p, TREES)) or 'unknown'


def enter(I, L, C, h, ent):
    """values of everything loop h changes when it is left"""
    env = C.env
    ints_ = lambda: {k: y for k, y in env.items() if isinstance(y, int)}
    places = sorted(I.classes[L.block[h]], key=repr)

    def values(X, get):
        new = {}
        for P in places:
            v = get(P)
            if P == TREES:
                new[('top', h)] = X.top(v)
            elif P[0] != 'i' or P[1] != TREES:
                x = X.tree(v)
                new[L.phi(h, P)] = value(v, ints_()) if x is None else x
        return {k: x for k, x in new.items() if x is not None}
    first = values(C, lambda P: ent[P])
    for P in places:
        env.pop(L.phi(h, P), None)
    env.pop(('top', h), None)
    env.update(first)
    mine = set(first)
    for n in range(12):
        outs = []
        for b in L.backs(h):
            if decided(b, h, env) and consistent(b, env):
                x = values(Counts(I, L, b, env), lambda P: b.ret.get(P, L.phi(h, P)))
                if x not in outs:
                    outs.append(x)
        if not outs:
            return
        if len(outs) != 1:
            raise CheckError('rounds of a loop differ')
        for k in mine:
            env.pop(k, None)
        env.update({k: x for k, x in outs[0].items() if k in mine})
    raise CheckError('a loop goes on for more than the repetitions it can add')


def decided(b, h, env):
    """the decisions of round b that depend on what the loop changes are decided by env"""
    k = max(i for i, e in enumerate(b.ev) if e[0] == 'loop' and e[1] == h)
    ds = [e for e in b.ev[k + 1:] if e[0] == 'dec']
    return bool(ds) and all(fact(e[1], env) is not None for e in ds)


def shared(ctx, I, L, p, o, w):
    """no node has two places among the trees the partition leaves"""
    live = set()
    for q in I.paths:
        for e in q.ev:
            for x in flat(e[2:4] if e[0] == 'call' else ()):
                if x[:1] == ('phi',):
                    live.add(x)
    vals = {}
    if p.end[0] == 'back':
        h = p.end[1]
        for P, v in p.ret.items():
            if P == TREES or L.phi(h, P) in live and nodelike(v):
                vals[P] = v
        if TREES in vals:
            vals = {P: v for P, v in vals.items() if not (P[0] == 'i' and P[1] == TREES)}
            st = stackval(vals.pop(TREES), TREES, ('phi', h, TREES))
            if st:
                vals[TREES] = ('tuple',) + tuple(st[1])
    else:
        st = stackafter(I, p, TREES)
        vals[TREES] = ('tuple',) + tuple(st[1] if st else ())
    used = []
    for P, v in vals.items():
        used += list(members(v))
    twice = sorted({show(x) for x in used if used.count(x) > 1})
    if used:
        ctx.check(not twice, 'unshared', o + ':%s' % (p.end[:2],), w, 'used at two places: %s' % twice)


def nodelike(v):
    v = uncast(v)
    return isinstance(v, tuple) and (v[0] in ('alloc', 'phi') or v[0] == 'res' and v[2] == 'copy' or operand(v, TREES))


def members(v):
    v = uncast(v)
    k, a = nodeof(v)
    if k:
        yield ('new', v[1])
        if k in ('sequence', 'selection'):
            yield from members(a[0])
            yield from members(a[1])
        elif k == 'iteration':
            yield from members(a[0])
    elif isinstance(v, tuple) and v[0] == 'upd':
        yield from members(v[1])
        for _, x in v[2]:
            yield from members(x)
    elif isinstance(v, tuple) and v[0] == 'push':
        yield from members(v[1])
        yield from members(v[2])
    elif isinstance(v, tuple) and v[0] == 'mut' or v == ('in', TREES) or isinstance(v, tuple) and v[0] == 'phi' and v[2] == TREES:
        return
    elif isinstance(v, tuple) and v[0] == 'tuple':
        for x in v[1:]:
            yield from members(x)
    elif isinstance(v, tuple):
        yield v


def flat(x):
    if isinstance(x, tuple) and x:
        yield x
        for y in x:
            if isinstance(y, tuple):
                yield from flat(y)


def greedy(ctx, I, L, p, o, w, g):
    """everything added is as greedy as the quantifier, and so are the first positions of what can be skipped"""
    k0 = max([i for i, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == p.end[1]], default=-1) if p.end[0] == 'back' else -1
    marked = set()
    for e in p.ev[k0 + 1:]:
        if e[0] != 'loop':
            continue
        for P in I.classes[L.block[e[1]]]:
            ph = L.phi(e[1], P)
            at = L.local(p, ph)
            bs = L.backs(e[1])
            if at and isinstance(at[0], tuple) and at[0][0] == 'begin' and add(at[1], at[0], -1) == ('size', ('in', at[0][1])) and \
                    all(any(c[0] == 'call' and c[1]['n'] == 'greedy' and c[3] and c[3][0] == g and c[2] == ('d', ('in', ('d', ph))) for c in after(b, e[1])) for b in bs):
                marked.add(at[0][1])
    for e in p.ev[k0 + 1:]:
        if e[0] != 'write':
            continue
        for x in flat(e[2]):
            k, a = nodeof(x)
            if k == 'iteration' or k == 'leaf':
                ctx.check(uncast(a[1]) == g, 'greediness', '%s:%s' % (o, k), w, 'adds a node with greediness %s' % show(a[1]))
            elif k == 'selection':
                X = [y for y in a if nodeof(y)[0] != 'leaf']
                ctx.check(len(X) == 1 and ('f', ('d', X[0]), '_firstpos') in marked, 'greediness', o + ':skippable', w,
                          'the first positions of %s are not marked\n' % [show(y) for y in X] + showpath(p))


# ---------------------------------------------------------------- the tree of a rule
def root(ctx, F, f):
    o, w = oname(f), where(f)
    I = run_(ctx, F, f)
    ps = {q['n']: ('in', ('v', q['n'])) for q in f['params']}
    order = [ps[f['params'][i]['n']] for i in range(1, 7)]
    bol = ps[f['params'][-1]['n']]
    seq = ('v', f['params'][0]['n'])
    L = Loops(I)
    lazy = lazyknown(ctx, I, L, seq, o, w)
    for p in rets(I):
        ends = {x for e in p.ev if e[0] in ('write', 'call') for x in flat(e[2:4]) if nodeof(x)[0] == 'end'}
        if not ctx.check(len(ends) == 1, 'root', o + ':end', w, '%d end nodes' % len(ends)):
            continue
        E_ = ends.pop()
        a = nodeof(E_)[1]
        ctx.check([uncast(x) for x in a[:6]] == order, 'root', o + ':rule', w, 'the end node carries %s' % [show(x) for x in a[:6]])
        know = lazy(p)
        ctx.check(uncast(a[6]) == (0 if know else 1), 'greediness', o + ':%s' % know, w, 'the end is greedy %s' % show(a[6]))
        # the tree
        r = unhavoc(p, p.ret)
        left = [q for q in p.facts.atoms.items() if q[0][0] == 'eq' and len(q[0][1]) == 1 and q[0][2] == 0 and q[0][1][0][0][0] == 'size' and
                TREES in (y for y in flat(q[0][1][0][0]))]
        if not ctx.check(len(left) == 1, 'root', o + ':empty', w, 'does not ask whether there is an expression'):
            continue
        if left[0][1]:
            ctx.check(r == E_, 'root', o + ':tree', w, 'an empty expression gives %s' % show(r))
        else:
            k, x = nodeof(r)
            ok = k == 'sequence' and x[1] == E_ and topof(x[0]) == TREES
            ctx.check(ok, 'root', o + ':tree', w, 'gives %s' % show(r))
        fx = [e for e in p.ev if e[0] == 'call' and e[1]['n'] == 'fixup_bol']
        b = p.facts.query(atom_eq(bol, 0)[0])
        ctx.check(b is not None and len(fx) == int(not b), 'root', o + ':bol', w, 'anchored rules elsewhere: %s, adjusted %d times' % (b, len(fx)))


def lazyknown(ctx, I, L, seq, o, w):
    """p -> does partition p know that some token of the rule is a lazy quantifier?"""
    hs = [h for h in L.desc if L.container(h) == seq and any(typeleaf(b, L, h) for b in L.backs(h))]
    if len(hs) != 1:
        raise CheckError('%s: how lazy quantifiers are looked for' % o)
    h = hs[0]
    for b in L.backs(h):
        t = typeleaf(b, L, h)
        for x in range(25):
            if consistent(b, {t: x}):
                ctx.check(x not in LAZY, 'greediness', '%s:lazy:%d' % (o, x), w, 'a quantifier of type %d does not make the rule lazy' % x)

    def know(p):
        t = typeleaf(p, L, h)
        if t is None:
            return False
        xs = {x in LAZY for x in range(25) if consistent(p, {t: x})}
        return xs.pop() if len(xs) == 1 else None
    return know


def typeleaf(p, L, h):
    ph = L.desc[h]['phi']
    ts = {t for a in p.facts.atoms for t in flat(a) if t[0] == 'in' and t[1][0] == 'f' and t[1][2] == '_type' and ph in set(flat(t))}
    return ts.pop() if len(ts) == 1 else None


def flagof(I, L, h):
    """variable that starts as false and that some round sets to true before the next round"""
    for P in sorted(I.classes[L.block[h]], key=repr):
        if all(e.get(P) in (0, False) for _, _, e in L.entries(h)) and any(b.ret.get(P) in (1, True) for b in L.backs(h)) and \
                all(b.ret.get(P, L.phi(h, P)) in (1, True, L.phi(h, P)) for b in L.backs(h)):
            return P
    return None


def fixup(ctx, F, f):
    o, w = oname(f), where(f)
    I = run_(ctx, F, f)
    L = Loops(I)
    R = ('v', f['params'][0]['n'])
    src = ('f', ('d', ('in', R)), '_firstpos')
    hs = [h for h in L.desc if L.container(h) == src]
    if len(hs) != 1:
        raise CheckError('%s: the first positions are not looked at' % o)
    h = hs[0]
    el = [('in', ('d', L.desc[h]['phi'])), ('in', ('i', src, L.desc[h]['phi']))]
    n = 0
    flag = flagof(I, L, h)
    for p in I.paths:
        if p.end[0] not in ('ret', 'back'):
            continue
        es = {m: t for q in p.facts.atoms for t in flat(q) for m in ('end_state', 'token') if t[:2] == ('m', m)}
        tok = es.get('token')
        for m, t in es.items():
            ctx.check(t[2][0] == 'in' and t[2][1][0] == 'd' and t[2][1][1] in el, 'root', o + ':looked-at', w, 'looks at %s' % show(t[2]))
        root_ = I.val(p, R)
        changed = root_ != ('in', R)
        for end in (0, 1):
            for tv in (0, 0xfffd, 0xfffe, 0xfd, 0xfe):
                env = {}
                if 'end_state' in es:
                    env[es['end_state']] = end
                if tok:
                    env[tok] = tv
                if not consistent(p, env):
                    continue
                isbol = not end and tok and any(q[0] == 'eq' and dict(q[1]).get(tok) and q[2] in (-0xfffe, -0xfe, 0xfe, 0xfffe) and pol
                                                for q, pol in p.facts.atoms.items())
                n += 1
                if flag:
                    ph = L.phi(h, flag)
                    if p.end[0] == 'back':
                        ctx.check(p.ret.get(flag, ph) in ((1, True) if isbol else (ph,)), 'root', o + ':noted', w,
                                  'finding ^ is noted as %s' % show(p.ret.get(flag, ph)))
                        continue
                    isbol = isbol or p.facts.query(atom_eq(ph, 0)[0]) is False
                if p.end[0] == 'back':
                    ctx.check(not isbol, 'root', o + ':goes-on', w, 'goes on looking after it found ^')
                else:
                    ctx.check(changed == (not isbol), 'root', o + ':when', w, 'changes the rule: %s, starts with ^: %s' % (changed, isbol))
        if p.end[0] == 'ret' and changed:
            ph = L.desc[h]['phi']
            whole = any(pol for q, pol in p.facts.atoms.items() if q[0] == 'eq' and dict(q[1]).get(ph)) or \
                any(not pol for q, pol in p.facts.atoms.items() if q[0] == 'lt' and dict(q[1]).get(ph))
            ctx.check(whole, 'root', o + ':all', w, 'does not look at every first position')
            k, a = nodeof(root_)
            k2, b = nodeof(a[0]) if k == 'sequence' else (None, ())
            ls = [nodeof(x) for x in b]
            ok = k == 'sequence' and a[1] == ('in', R) and k2 == 'selection' and all(x[0] == 'leaf' and x[1][1] == 1 for x in ls) and \
                sorted(x[1][0] for x in ls) in ([0xfffe, 0xffff], [0xfe, 0xff])
            ctx.check(ok, 'root', o + ':tree', w, 'becomes %s' % show(root_))
    ctx.check(n > 3, 'root', o + ':cases', w, 'no cases')
