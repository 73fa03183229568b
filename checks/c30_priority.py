"""C30: of the rules matching the longest text the first one added wins, with all of its own data."""
from record_model import *

# row slot -> (vector of the rules, what it is)
SLOTS = {1: '_ids', 2: '_user_ids', 3: '_pushes', 4: '_next_dfas'}
POP = '_pops'


def run(ctx):
    ctx.rule('recorded', 'every addition records, per alternative of the rule, one regex, text, id, user id, next state, push and pop at the same '
             'state', 60)
    ctx.rule('data', 'what is recorded is the data given: regex from the text given, id, user id (npos if none), next state, push and pop as the new '
             'state text says', 200)
    ctx.rule('lockstep', 'building reads regex and data of each rule from the same position, every rule once and in the order added', 30)
    ctx.rule('composed', 'each slot of an accepting row is filled with what the rules recorded for it (rules vector -> parse -> end node -> accessor -> row)', 30)
    ctx.rule('choice', 'tree nodes keep earlier alternatives first', 2)
    ctx.rule('first-wins', 'the first end marker met in order sets all data of the row together, later ones change nothing', 30)
    ctx.rule('row', 'the accepting row is written from one end marker; a row is reused only for the same set of positions, and by its own number', 30)
    ctx.rule('merge-order', 'merging transition targets keeps those of the earlier rule in front and loses none', 4)
    ctx.rule('greedy', 'which quantifier governs a merged transition is decided by the earlier rule', 1)
    ctx.assume('std::vector/list/map/find behave as the standard says')
    F = ctx.facts('d_core')
    for f in pushes(F):
        push(ctx, F, f)
    chain = composition(ctx, F)
    for f in F.fns.values():
        if 'body' not in f:
            continue
        if f['n'] == 'closure' and f.get('cls', '').startswith('lexertl::basic_generator<'):
            closure(ctx, F, f, chain)
    selection(ctx, F)
    merge(ctx, F)


# ---- recording -------------------------------------------------------------------------------------------------------------------------------------

def push(ctx, F, f):
    I = interp(ctx, F, f, lambda g: g['n'] not in KEPT)
    L = Loops(I)
    o = overload(f)
    R = roles(f)
    where = f['q'] + ':%d' % f['l']
    segs = segments(I)
    if not segs:
        ctx.bad('recorded', o, where, 'nothing is ever recorded')
        return
    npos = nposof(F, f)
    for p, s in segs:
        counts = {n: len(s.get(n, ())) for n in FIELDS}
        ctx.check(set(counts.values()) == {1}, 'recorded', o + ':together', where, 'one round records %s' % counts)
        if set(counts.values()) != {1}:
            continue
        idx = {s[n][0][0] for n in FIELDS}
        if not ctx.check(len(idx) == 1, 'recorded', o + ':same-state', where, 'recorded for different states: %s' % sorted(map(show, idx))):
            continue
        idx = idx.pop()
        v = {n: s[n][0][1] for n in FIELDS}
        # regexes: element of the complete traversal of what tokenise returned for the text given
        X = next((x for h in L.desc for x in [complete(I, L, h, v['_regexes'])] if x is not None), None)
        tok = [e for e in p.ev if e[0] == 'call' and e[1]['n'] == 'tokenise']
        ok = X is not None and len(tok) >= 1 and any(X == e[4] for e in tok)
        ctx.check(ok, 'data', o + ':regex', where, 'regex recorded is %s, not each alternative of the tokenised rule' % show(v['_regexes'])[:160])
        for e in tok:
            ctx.check(textof(e[3][0]) == tuple(('in', ('v', n)) for n in R['regex']), 'data', o + ':text', where,
                      'tokenises %s' % show(e[3][0])[:120])
        wid = ('in', ('v', R['id'])) if R['id'] else 0
        ctx.check(equal(p, v['_ids'], wid) is True, 'data', o + ':id', where, 'id recorded is %s' % show(v['_ids']))
        wus = ('in', ('v', R['user'])) if R['user'] else npos
        ctx.check(equal(p, v['_user_ids'], wus) is True, 'data', o + ':user_id', where, 'user id recorded is %s' % show(v['_user_ids']))
        transition(ctx, p, v, idx, R, o, where, npos)
    states(ctx, I, L, f, R, o, where, segs)


NPOS = {'unsigned char': 0xff, 'unsigned short': 0xffff, 'unsigned int': 0xffffffff, 'unsigned long': (1 << 64) - 1}


def nposof(F, f):
    """npos of the id type of the rules class f belongs to"""
    for g in pushes(F):
        if g['cls'] == f['cls']:
            t = [bare(p['t']) for p in g['params'] if bare(p['t']) in NPOS]
            if t:
                return NPOS[t[0]]
    raise CheckError('id type of %s unknown' % f['cls'])


def textof(v):
    """the inputs a string was made from"""
    if isinstance(v, tuple) and v and v[0] == 'new' and 'basic_string' in v[1]:
        a = [x for x in v[2] if not (isinstance(x, tuple) and x[:1] == ('new',) and 'allocator' in x[1])]
        return tuple(a)
    return (v,)


def transition(ctx, p, v, idx, R, o, where, npos):
    nx, pu, po = v['_next_dfas'], v['_pushes'], v['_pops']
    if not R['new']:
        ctx.check(nx == idx == 0 and pu == npos and po == 0, 'data', o + ':state', where,
                  'a rule without states records next %s push %s pop %s' % (show(nx), show(pu), show(po)))
        return
    N = ('in', ('v', R['new']))
    c0 = ('in', ('d', N))
    c1 = ('in', ('d', add(N, 1)))
    is_pop, is_push = equal(p, c0, 60), equal(p, c0, 62)
    dot = equal(p, c0, 46), equal(p, c1, 0)
    lead = 1 if True in (is_pop, is_push) else 0
    # pop
    pv = po if isinstance(po, int) else truth(p, (po[1], po[2])) if po[0] == 'cmp' else None
    sym = isinstance(po, tuple) and po == boolof(atom_eq(c0, 60))
    ctx.check((pv is not None and is_pop is not None and bool(pv) == is_pop) or sym, 'data', o + ':pop', where,
              "pop recorded is %s; the new state text starts with '<': %s" % (show(po), is_pop))
    # next
    if is_pop is True:
        ctx.check(nx == npos, 'data', o + ':next', where, "a '<' rule records next state %s" % show(nx))
    elif dot[0] is True and dot[1] is True:
        ctx.check(nx == idx, 'data', o + ':next', where, "a '.' rule records next state %s instead of its own" % show(nx))
    else:
        ok, key = found(nx)
        t = textof(key) if ok else ()
        ok = ok and len(t) in (1, 2) and equal(p, t[0], add(N, lead)) is True and not (dot[0] is True and dot[1] is True)
        if ok and len(t) == 2:
            ok = equal(p, ('in', ('d', t[1])), 58) is True
        ctx.check(ok, 'data', o + ':next', where, 'next state recorded is %s' % show(nx)[:200])
    # push
    if is_push is True:
        ok, key = found(pu)
        if ok:
            t = textof(key)
            good = len(t) == 1 and equal(p, ('in', ('d', add(t[0], -1))), 58) is True
            ctx.check(good, 'data', o + ':push', where, 'push recorded is %s' % show(pu)[:200])
        else:
            colon = any(a[0] == 'eq' and a[2] == -58 and pol for a, pol in p.facts.atoms.items())
            ctx.check(pu == idx and not colon, 'data', o + ':push', where, "a '>' rule records push %s" % show(pu)[:200])
    elif is_push is False or is_pop is True or dot[0] is True:
        ctx.check(pu == npos, 'data', o + ':push', where, "push recorded is %s although the new state text does not start with '>'" % show(pu)[:200])
    else:
        ctx.bad('data', o + ':push', where, 'what is pushed does not depend on the new state text')


def boolof(q):
    return ('cmp', q[0], q[1]) if isinstance(q, tuple) else q


def found(v):
    """v is the number found in the state map for a name -> (True, name)"""
    if isinstance(v, tuple) and v[0] == 'in' and v[1][0] == 'f' and v[1][2] == 'second' and v[1][1][0] == 'd':
        m = v[1][1][1]
        if isinstance(m, tuple) and m[0] == 'm' and m[1] == 'find' and m[2] == ('in', ('f', THIS, '_statemap')):
            return True, m[3][0]
    return False, None


def states(ctx, I, L, f, R, o, where, segs):
    """the states recorded for: '*' all, else every name of the list"""
    if not R['curr']:
        return
    C = ('in', ('v', R['curr']))
    for p, s in segs:
        if not all(len(s.get(n, ())) == 1 for n in FIELDS):
            continue
        idx = s['_ids'][0][0]
        # the state comes out of the list of states collected before
        list_ = None
        if isinstance(idx, tuple) and idx[0] == 'idx':
            if L.local(p, idx[2]) == (0, ('size', idx[1])):
                list_ = idx[1]
        elif isinstance(idx, tuple) and idx[0] == 'phi' and idx[2][0] == 'i':
            if L.local(p, idx[2][2]) == (0, ('size', ('phi', idx[1], idx[2][1]))):
                list_ = idx[2][1]
        elif isinstance(idx, tuple) and idx[0] == 'in' and idx[1][0] == 'd':
            d = L.local(p, idx[1][1])
            if d and isinstance(d[0], tuple) and d[0][0] == 'begin':
                n = add(d[1], d[0], -1)
                list_ = n[1] if isinstance(n, tuple) and n[0] == 'size' else None
        ctx.check(list_ is not None, 'recorded', o + ':states', where, 'not recorded for every state named: state %s' % show(idx))


# ---- from the rules to the row ---------------------------------------------------------------------------------------------------------------------

def composition(ctx, F):
    """{row source accessor name: rules vector}"""
    end = [f for f in F.fns.values() if f['n'] == 'basic_end_node' and f.get('cls', '').startswith('lexertl::detail::basic_end_node<') and
           'body' in f and len(f['params']) > 2]
    if not end:
        raise CheckError('end node constructor not found')
    chain = {}
    for c in end:
        T = c['cls']
        I = interp(ctx, F, c)
        par = {p['n']: i for i, p in enumerate(c['params'])}
        field = {}
        for p in I.paths:
            for e in p.ev:
                if e[0] == 'write' and e[1][0] == 'f' and e[1][1] == THIS and e[2] in [('in', ('v', n)) for n in par]:
                    field.setdefault(e[1][2], set()).add(par[e[2][1][1]])
        for a in F.fns.values():
            if a.get('cls') == T and 'body' in a and not a['params'] and a['n'] in ('id', 'user_id', 'unique_id', 'next_dfa', 'push_dfa', 'pop_dfa',
                                                                                    'greedy', 'end_state'):
                J = interp(ctx, F, a)
                rets = {p.ret for p in J.paths if p.end[0] == 'ret'}
                r = rets.pop() if len(rets) == 1 else None
                if a['n'] == 'end_state':
                    ctx.check(r == 1, 'composed', short(T) + ':end_state', a['q'], 'end_state() of an end marker gives %s' % (r,))
                    continue
                i = None
                if r and r[0] == 'in' and r[1][0] == 'f' and r[1][1] == THIS and len(field.get(r[1][2], ())) == 1:
                    i = next(iter(field[r[1][2]]))
                ctx.check(i is not None, 'composed', short(T) + ':' + a['n'], a['q'], '%s() does not give a constructor argument back' % a['n'])
                chain.setdefault((idof(T), a['n']), i)
    # other node kinds are not end markers
    for a in F.fns.values():
        if a['n'] == 'end_state' and 'body' in a and '_node<' in a.get('cls', '') and 'basic_end_node' not in a['cls']:
            J = interp(ctx, F, a)
            ctx.check({p.ret for p in J.paths if p.end[0] == 'ret'} == {0}, 'composed', short(a['cls']) + ':end_state', a['q'], 'not an end marker')
    # parse: which parameter becomes which end node argument
    parse = {}
    for f in F.fns.values():
        if f['n'] == 'parse' and f.get('cls', '').startswith('lexertl::detail::basic_parser<') and 'body' in f:
            keep = {'charset', 'regex', 'narrow', 'openparen', 'optional', 'zero_or_more', 'one_or_more', 'repeatn', 'perform_or', 'macro', 'bol', 'eol',
                    'reduce', 'sequence', 'orexp', 'oror', 'sub', 'repeat', 'ab', 'fixup_bol'}
            I = interp(ctx, F, f, lambda g: g['n'] not in keep)
            par = {p['n']: i for i, p in enumerate(f['params'])}
            m, seq = {}, True
            for p in I.paths:
                if p.end[0] not in ('ret',):
                    continue
                al = allocs([e[2] for e in p.ev if e[0] == 'write'] + [p.ret], 'basic_end_node<')
                ctx.check(len(al) == 1, 'composed', short(f['cls']) + ':one-end', f['q'], '%d end markers made for one rule' % len(al))
                for a in al:
                    for j, x in enumerate(a[3]):
                        m.setdefault(j, set()).add(par[x[1][1]] if isinstance(x, tuple) and x[0] == 'in' and x[1][0] == 'v' and x[1][1] in par else None)
                    t = unhavoc(p, p.ret)       # fixup_bol only puts something in front
                    ok = t == a or (isinstance(t, tuple) and t[0] == 'alloc' and 'basic_sequence_node<' in t[2]
                                    and len(t[3]) == 2 and t[3][1] == a and t[3][0] != a)
                    ctx.check(ok, 'composed', short(f['cls']) + ':end-last', f['q'], 'the tree returned is %s' % show(p.ret)[:160])
            parse[bare(f['cls'])] = (f, {j: (next(iter(s)) if len(s) == 1 else None) for j, s in m.items()})
    if not parse:
        raise CheckError('parse not found')
    # build_tree: what is handed to parse
    out = {}
    for f in F.fns.values():
        if f['n'] != 'build_tree' or 'body' not in f or not f.get('cls', '').startswith('lexertl::basic_generator<'):
            continue
        I = interp(ctx, F, f, lambda g: g['n'] != 'parse')
        args = lockstep(ctx, F, I, f)
        if args is None:
            continue
        # compose
        pf = next((m for T, (g, m) in parse.items() if any(e[0] == 'call' and e[1]['n'] == 'parse' and bare(e[1].get('cls', T)) == T
                                                           for p in I.paths for e in p.ev)), None)
        if pf is None:
            raise CheckError('parse called by build_tree not analysed')
        idt = next((t for t, _ in chain if any('basic_node<%s>' % t in q['t'] for q in f['params'])), None)
        for (t, acc), i in chain.items():
            if t == idt and i is not None and pf.get(i) is not None:
                out[(f['cls'], acc)] = args.get(pf[i])
        for acc in ('id', 'user_id', 'push_dfa', 'next_dfa', 'pop_dfa', 'unique_id'):
            w = {'id': '_ids', 'user_id': '_user_ids', 'push_dfa': '_pushes', 'next_dfa': '_next_dfas', 'pop_dfa': '_pops', 'unique_id': 'number'}[acc]
            got = out.get((f['cls'], acc))
            ctx.check(got == w, 'composed', gname(f) + ':' + acc, f['q'], '%s() of an end marker comes from %s, not from %s' % (acc, got, w))
    return out


def idof(T):
    """id type of a node class"""
    return T.split('_node<')[1].rstrip('>')


def gname(f):
    return short(f['cls']).replace('basic_', '')


def allocs(vs, T):
    out = []

    def go(v):
        if isinstance(v, tuple):
            if len(v) == 4 and v[0] == 'alloc' and T in str(v[2]):
                if v not in out:
                    out.append(v)
            for x in v:
                go(x)
    for v in vs:
        go(v)
    return out


def lockstep(ctx, F, I, f):
    """parse argument -> rules vector; checks that all rules are parsed once, in order, with their own data"""
    o = gname(f)
    rules = ('v', f['params'][0]['n'])
    dfa = ('in', ('v', f['params'][1]['n']))
    vec = {}
    backs = {}

    def src(p, h, v):
        """(vector, position relative to the loop counter or absolute)"""
        if isinstance(v, tuple) and v[0] == 'in':
            P = v[1]
            if P[0] == 'i' and P[1][0] == 'i' and P[1][1][0] == 'f' and P[1][1][1] == rules and P[1][2] == dfa:
                if isinstance(P[2], int):
                    return P[1][1][2], ('abs', P[2])
                st = start(h, P[2])
                return (P[1][1][2], ('rel', st)) if st is not None else None
            if P[0] == 'd':
                st = start(h, P[1])
                if st is not None and isinstance(st, tuple):
                    t, c = lin(st)
                    if len(t) == 1:
                        (k, n), = t.items()
                        if n == 1 and k[0] == 'begin' and k[1][0] == 'i' and k[1][1][0] == 'f' and k[1][1][1] == rules and k[1][2] == dfa:
                            return k[1][1][2], ('rel', c)
        return None

    def start(h, ph):
        if h is None or not isinstance(ph, tuple) or ph[0] != 'phi' or ph[1] != h:
            return None
        P = next((P for P, x in I.classes[L.block[h]].items() if L.phi(h, P) == ph), None)
        if P is None:
            return None
        ents = {x[2][P] for x in L.entries(h)}
        steps = {add(q.ret[P], ph, -1) if P in q.ret else None for q in L.backs(h)}
        return ents.pop() if len(ents) == 1 and steps == {1} else None

    L = Loops(I)
    got = {}
    main, rnd = set(), {}
    bad = False
    for p in I.paths:
        if p.end[0] not in ('ret', 'back'):
            continue
        h, seg = None, []
        segs = [(None, seg)]
        for e in p.ev:
            if e[0] == 'loop':
                h, seg = e[1], []
                segs.append((h, seg))
            elif e[0] == 'call' and e[1]['n'] == 'parse':
                seg.append(e)
        for h, seg in segs:
            pos = []
            for e in seg:
                k = set()
                for i, a in enumerate(e[3]):
                    s = src(p, h, a)
                    if s:
                        got.setdefault(i, set()).add(s[0])
                        k.add(s[1])
                ctx.check(len(k) == 1, 'lockstep', o + ':same-rule', f['q'], 'one rule is parsed with data of positions %s' % sorted(map(str, k)))
                pos.append(k.pop() if len(k) == 1 else None)
            if h is None:
                main.add(tuple(pos))
            elif p.end == ('back', h) and seg is segs[-1][1]:
                rnd.setdefault(h, set()).add(tuple(pos))
    n = None
    if len(main) == 1:
        m = main.pop()
        if all(x == ('abs', i) for i, x in enumerate(m)):
            n = len(m)
    ok = n is not None and len(rnd) == 1
    h = next(iter(rnd)) if rnd else None
    ok = ok and rnd[h] == {(('rel', n),)}
    ctx.check(ok, 'lockstep', o + ':every-rule', f['q'], 'rules parsed before the loop: %s, in a round: %s' % (sorted(map(str, main)) or n, rnd))
    if not ok:
        return None
    d = L.desc.get(h)
    bound_ok = False
    if d and not d['down']:
        b = d['bound']
        t, c = lin(b)
        bound_ok = c == 0 and any(k[0] == 'size' and k[1][0] == 'in' and k[1][1][0] == 'i' and k[1][1][1][0] == 'f' and k[1][1][1][1] == rules and
                                  k[1][1][1][2] == '_regexes' and k[1][1][2] == dfa and m_ == 1 for k, m_ in t.items()) and \
            all(k[0] in ('size', 'begin') for k in t)
    ctx.check(bound_ok, 'lockstep', o + ':until-end', f['q'], 'the loop over the rules does not end at their number')
    args = {i: next(iter(s)) for i, s in got.items() if len(s) == 1}
    # rule number: counter incremented before every parse
    for p in I.paths:
        for e in p.ev:
            if e[0] == 'call' and e[1]['n'] == 'parse':
                for i, a in enumerate(e[3]):
                    if i not in args and isinstance(a, tuple) and a[0] == 'lin' and a[2] == 1 and len(a[1]) == 1:
                        b = a[1][0][0]
                        if b in (('in', ('v', f['params'][-1]['n'])),) or (b[0] == 'phi' and L.phi(b[1], ('v', f['params'][-1]['n'])) == b):
                            args[i] = 'number'
    # the number handed out stays counted
    num = ('v', f['params'][-1]['n'])
    for p in I.paths:
        k = [i for i, e in enumerate(p.ev) if e[0] == 'loop']
        if p.end[0] == 'back':
            ph = L.phi(p.end[1], num)
            ctx.check(ph is not None and p.ret.get(num) == add(ph, 1), 'lockstep', o + ':numbered', f['q'], 'rule number after a round is %s' %
                      show(p.ret.get(num, '?')))
    # roots
    for p in I.paths:
        if p.end[0] == 'back':
            h = p.end[1]
            al = allocs([e[2] for e in p.ev if e[0] == 'write'] + list(p.ret.values()), 'basic_selection_node<')
            res = [e[4] for e in p.ev if e[0] == 'call' and e[1]['n'] == 'parse']
            root = [P for P in p.ret if L.phi(h, P) is not None and p.ret[P] in al]
            if not root and n == 0 and res and any(p.ret[P] == res[-1] and equal(p, L.phi(h, P), 0) is True for P in p.ret):
                continue    # the first rule is the whole tree so far
            ok = len(root) == 1 and len(al) == 1
            if ok:
                a = p.ret[root[0]]
                ok = a[3] == (L.phi(h, root[0]), res[-1]) if res else False
                ents = {x[2][root[0]] for x in L.entries(h)}
                first = {e[4] for q in I.paths for e in q.ev if e[0] == 'call' and e[1]['n'] == 'parse' and e[4] in ents} if n == 1 else {0}
                ok = ok and (len(ents) == 1 and ents == first)
            ctx.check(ok, 'choice', o + ':rules', f['q'], 'the tree of all rules is not (rules so far | this rule)')
        elif p.end[0] == 'ret':
            ok = isinstance(p.ret, tuple) and p.ret[0] == 'phi'
            ctx.check(ok, 'choice', o + ':result', f['q'], 'returns %s' % show(p.ret))
    return args


def selection(ctx, F):
    for f in F.fns.values():
        if f['n'] == 'basic_selection_node' and 'body' in f and len(f['params']) == 2:
            I = interp(ctx, F, f)
            l, r = (('in', ('v', p['n'])) for p in f['params'])
            for fld in ('_firstpos', '_lastpos'):
                for p in I.paths:
                    s = sources(I.val(p, ('f', THIS, fld)))
                    want = [('all', ('f', ('d', l), fld)), ('all', ('f', ('d', r), fld))]
                    ctx.check(s == want, 'choice', short(f['cls']) + ':' + fld, f['q'], '%s of a choice is %s' % (fld, s))


def sources(v):
    """a container value as list of ('one', x) / ('all', place), in order"""
    if v == ('empty',):
        return []
    if v[0] == 'push':
        return sources(v[1]) + [('one', v[2])]
    if v[0] == 'mut' and v[1] == 'insert' and len(v[3]) == 3:
        old = sources(v[2])
        pos, b, e = v[3]
        if isinstance(b, tuple) and b[0] == 'begin' and add(e, b, -1) == ('size', ('in', b[1])):
            new = [('all', b[1])]
            t, c = lin(pos)
            if c == 0 and any(k[0] == 'size' and k[1] == v[2] for k in t):
                return old + new
            if isinstance(pos, tuple) and pos[0] == 'begin':
                return new + old
    if v[0] == 'in':
        return [('all', v[1])]
    if v[0] == 'new' and len(v[2]) >= 1 and isinstance(v[2][0], tuple):
        return sources(v[2][0])
    return [('?', v)]


# ---- accepting rows --------------------------------------------------------------------------------------------------------------------------------

def closure(ctx, F, f, chain):
    I = interp(ctx, F, f)
    L = Loops(I)
    o = gname(f)
    fp = ('v', f['params'][0]['n'])
    hs = [h for h in L.desc if L.container(h) == fp]
    if not ctx.check(len(hs) == 1, 'first-wins', o + ':order', f['q'], 'the positions are not walked over once from front to back'):
        return
    h = hs[0]
    d = L.desc[h]
    node = ('in', ('d', d['phi']))
    nodei = ('in', ('i', fp, d['phi']))

    def meth(v):
        """name of the accessor of the current node that gives v"""
        if isinstance(v, tuple) and v[0] == 'm' and v[2] in (('in', ('d', node)), ('in', ('d', nodei))) and v[3] == ():
            return v[1]
        return None
    # row writes
    rows = []
    dfa = None
    for p in I.paths:
        if p.end[0] != 'ret':
            continue
        grown = [e for e in p.ev if e[0] == 'write' and isinstance(e[2], tuple) and e[2][0] == 'mut' and e[2][1] == 'resize']
        if grown:
            rows.append((p, grown))
    if not ctx.check(bool(rows), 'row', o + ':made', f['q'], 'no row is ever added'):
        return
    roles_ = {}       # slot -> set of loop carried places
    size_ = ('in', ('v', f['params'][4]['n']))
    flags = set()
    for p, grown in rows:
        ok = len(grown) == 1 and grown[0][1][0] == 'v'
        e = grown[0]
        old = e[2][2]
        n = ('size', old)
        ok = ok and e[2][3][0] == add(size_, n) and e[2][3][1:] in ((0,), ())
        ctx.check(ok, 'row', o + ':grown', f['q'], 'the table does not grow by one zeroed row')
        if not ok:
            continue
        dfa = e[1]
        slots = {}
        for w in p.ev:
            if w[0] == 'write' and w[1][0] == 'i' and w[1][1] == dfa:
                k = add(w[1][2], n, -1)
                slots[k] = w[2]
        wrong = [k for k in slots if not isinstance(k, int) or k not in (0, 1, 2, 3, 4)]
        ctx.check(not wrong, 'row', o + ':slots', f['q'], 'writes row slots %s' % wrong)
        bits, base = decode(slots.get(0, 0))
        known = {}
        if slots:
            # accepting: every slot written
            ctx.check(set(slots) == {0, 1, 2, 3, 4} and bits is not None and bits & 1, 'row', o + ':complete', f['q'],
                      'an accepting row has slots %s, flags %s' % (sorted(map(str, slots)), bits))
            for k in (1, 2, 3, 4):
                if k in slots:
                    roles_.setdefault(k, set()).add(slots[k])
        rows_bits = bits or 0
        roles_.setdefault('bits', []).append((p, rows_bits, bool(slots)))
    # what the loop does
    place = {}
    for k in (1, 2, 3, 4):
        vs = roles_.get(k, set())
        ok = len(vs) == 1
        v = next(iter(vs)) if ok else None
        ok = ok and isinstance(v, tuple) and v[0] == 'phi' and v[1] == h
        P = next((P for P in I.classes[L.block[h]] if L.phi(h, P) == v), None) if ok else None
        ctx.check(P is not None, 'row', o + ':slot%d' % k, f['q'], 'slot %d is not what the walk over the positions found' % k)
        if P is not None:
            place[k] = P
    carried = [P for P in I.classes[L.block[h]] if L.phi(h, P) is not None]
    group, kinds = {}, {}
    for p in L.backs(h):
        ch = {P: meth(p.ret[P]) for P in carried if P in p.ret and meth(p.ret[P]) is not None}
        for P, m in ch.items():
            group.setdefault(P, set()).add(m)
    flag = None
    for P in carried:
        vals = {p.ret.get(P) for p in L.backs(h)} - {L.phi(h, P)}
        if vals == {1} and {x[2][P] for x in L.entries(h)} == {0}:
            flag = P
    if not ctx.check(flag is not None, 'first-wins', o + ':flag', f['q'], 'nothing remembers that an end marker was met'):
        return
    pop = next((P for P, m in group.items() if m == {'pop_dfa'}), None)
    grd = next((P for P, m in group.items() if m == {'greedy'}), None)
    ctx.check(grd is not None, 'composed', o + ':greedy', f['q'], 'the greedy flag is not what the end marker says')
    G = set(place.values()) | {P for P in (pop, grd) if P} | {flag}
    for p in L.backs(h):
        end = [m for m in p.facts.atoms if m[0] == 'eq' and len(m[1]) == 1 and meth(m[1][0][0]) == 'end_state']
        isend = None
        for m in end:
            q = p.facts.query(('eq', m[1], 0))
            isend = None if q is None else not q
        had = equal(p, L.phi(h, flag), 0)
        changed = {P for P in G if p.ret.get(P, L.phi(h, P)) != L.phi(h, P) and not (isinstance(p.ret.get(P), int) and equal(p, L.phi(h, P), p.ret[P]) is True)}
        if isend is True and had is True:
            want = {P for P in G}
            ms = {P: meth(p.ret.get(P)) for P in G if P != flag}
            ctx.check(changed == want and None not in ms.values(), 'first-wins', o + ':all-together', f['q'],
                      'the first end marker sets %s of %s' % (sorted(map(lname_, changed)), sorted(map(lname_, want))))
        else:
            known = isend is False or had is False
            ctx.check(not changed, 'first-wins', o + ':later', f['q'], 'changes %s although %s' % (
                sorted(map(lname_, changed)), 'an end marker was met before' if had is False else 'the position is no end marker' if isend is False else
                'not known to be the first end marker'))
    for k, P in place.items():
        m = group.get(P, set())
        acc = next(iter(m)) if len(m) == 1 else None
        got = chain.get((f['cls'], acc))
        ctx.check(got == SLOTS[k], 'composed', o + ':slot%d' % k, f['q'], 'slot %d is filled from %s (%s), not from %s' % (k, acc, got, SLOTS[k]))
    ctx.check(pop is not None and chain.get((f['cls'], 'pop_dfa')) == POP, 'composed', o + ':pop', f['q'], 'the pop flag is not what the rule says')
    for p, bits, acc in roles_.get('bits', []):
        fl = equal(p, L.phi(h, flag), 0)
        ctx.check(fl is not None and (not fl) == acc, 'row', o + ':accepting', f['q'], 'row is %saccepting, end marker met: %s' % (
            '' if acc else 'not ', None if fl is None else not fl))
        if not acc:
            continue
        for P, bit, nm in ((pop, 4, 'pop'), (grd, 2, 'greedy')):
            if P is None:
                continue
            z = equal(p, L.phi(h, P), 0)
            ctx.check(z is not None and bool(bits & bit) == (not z), 'row', o + ':' + nm, f['q'], 'flag %s is %s, its value is zero: %s' % (
                nm, bool(bits & bit), z))
        ctx.check(bits & ~7 == 0, 'row', o + ':flags', f['q'], 'unknown flags %d' % bits)
    reuse(ctx, I, L, f, o, h, rows)


def uncast(v):
    while isinstance(v, tuple) and v[0] == 'cast':
        v = v[2]
    return v


def lname_(P):
    return P[-1] if P[0] == 'v' else lname(P)


def decode(v):
    """bits or-ed onto a zeroed slot"""
    bits = 0
    while isinstance(v, tuple) and v[0] == 'op' and v[1] == '|':
        a, b = v[2], v[3]
        if isinstance(b, int):
            bits |= b
            v = a
        elif isinstance(a, int):
            bits |= a
            v = b
        else:
            return None, v
    if isinstance(v, int):
        return bits | v, 0
    return bits, v


def reuse(ctx, I, L, f, o, h, rows):
    """an existing row is only returned for an equal set of positions"""
    new = {id(p) for p, g in rows}
    sets = ('v', f['params'][1]['n'])
    setval = None
    for p, g in rows:
        v = I.val(p, sets)
        ok = isinstance(v, tuple) and v[0] == 'push'
        # the number returned is the number of sets, rows are numbered from 1
        ctx.check(ok and uncast(p.ret) in (('size', v), add(('size', v[1]), 1)), 'row', o + ':number', f['q'],
                  'a new row is reported as number %s' % show(p.ret))
        vec = I.val(p, ('v', f['params'][2]['n']))
        hsh = I.val(p, ('v', f['params'][3]['n']))
        ctx.check(isinstance(vec, tuple) and vec[0] == 'push' and isinstance(hsh, tuple) and hsh[0] == 'push', 'row', o + ':kept', f['q'],
                  'set, positions and hash of a new row are not kept together')
        if ok:
            setval = v[2]
    if setval is None:
        return

    def eqset(p):
        """partition p knows that the set made equals an element of the sets seen -> that element's position"""
        for a, pol in p.facts.atoms.items():
            if a[0] == 'eq' and pol and a[2] == 0 and len(a[1]) == 2:
                for (x, _), (y, _) in ((a[1][0], a[1][1]), (a[1][1], a[1][0])):
                    if contains(y, lambda t: t == setval) and isinstance(x, tuple) and x[0] == 'in' and x[1][0] == 'd':
                        z = x[1][1]
                        if z[0] == 'in' and z[1][0] == 'd':
                            return ('it', z[1][1])
                        if z[0] == 'in' and z[1][0] == 'i' and z[1][1] == sets:
                            return ('ix', z[1][2])
        return None
    n = 0
    for p in I.paths:
        if p.end[0] != 'ret' or id(p) in new:
            continue
        if p.ret in (0xff, 0xffff, 0xffffffff, (1 << 64) - 1):
            continue      # nothing follows: no state
        n += 1
        if eqset(p):
            ctx.check(rownum(I, L, p.ret, eqset(p), sets), 'row', o + ':reuse', f['q'], 'the row of an equal set is reported as %s' % show(p.ret))
            continue
        # a flag set in a round that found an equal set
        good = False
        if isinstance(p.ret, tuple) and p.ret[0] in ('phi', 'lin'):
            phs = [t for t in lin(p.ret)[0] if isinstance(t, tuple) and t[0] == 'phi']
            if len(phs) == 1:
                h2 = phs[0][1]
                cls = I.classes[L.block[h2]]
                idx = next((P for P in cls if L.phi(h2, P) == phs[0]), None)
                fl = [P for P in cls if L.phi(h2, P) is not None and equal(p, L.phi(h2, P), 0) is False and P != idx]
                for P in fl:
                    ents = {x[2].get(P) for x in L.entries(h2)}
                    sets_ = [q for q in L.backs(h2) if q.ret.get(P) not in (0, L.phi(h2, P))]
                    if ents == {0} and sets_ and all(eqset(q) for q in sets_):
                        good = all(rownum(I, L, subst(p.ret, {phs[0]: q.ret.get(idx, phs[0])}), eqset(q), sets) for q in sets_)
        ctx.check(good, 'row', o + ':reuse', f['q'], 'an existing row is reported without comparing the sets of positions, or by another number (%s)' % show(p.ret))
    ctx.check(n > 0, 'row', o + ':shared', f['q'], 'rows are never shared')


def rownum(I, L, v, at, sets):
    """v is the number (counted from 1) of the element at"""
    kind, ph = at
    if kind == 'ix' and not (isinstance(ph, tuple) and ph[0] == 'phi'):
        return v == add(ph, 1)
    if not (isinstance(ph, tuple) and ph[0] == 'phi'):
        return False
    h = ph[1]
    cls = I.classes[L.block[h]]
    P = next((P for P in cls if L.phi(h, P) == ph), None)
    ents = {x[2][P] for x in L.entries(h)}
    if len(ents) != 1 or {add(q.ret.get(P, 0), ph, -1) for q in L.backs(h)} != {1}:
        return False
    e = ents.pop()
    off = e if kind == 'ix' else add(e, ('begin', sets), -1)     # position of the element when the loop starts
    if not isinstance(off, int):
        return False
    d = add(v, ph, -1)
    if kind == 'ix' and isinstance(d, int):
        return d == 1
    t, c = lin(v)
    ps = [x for x in t if isinstance(x, tuple) and x[0] == 'phi' and x[1] == h]
    if len(t) != 1 or len(ps) != 1:
        if kind == 'it':
            return add(add(v, ph, -1), ('begin', sets)) == 1
        return False
    Q = next((Q for Q in cls if L.phi(h, Q) == ps[0]), None)
    ents = {x[2][Q] for x in L.entries(h)}
    if len(ents) != 1 or {add(q.ret.get(Q, 0), ps[0], -1) for q in L.backs(h)} != {1}:
        return False
    e0 = ents.pop()
    return isinstance(e0, int) and c - off + e0 == 1


# ---- merging transitions ---------------------------------------------------------------------------------------------------------------------------

def merge(ctx, F):
    for f in F.fns.values():
        if f['n'] == 'intersect' and f.get('cls', '').startswith('lexertl::detail::basic_equivset<') and 'body' in f:
            I = interp(ctx, F, f)
            L = Loops(I)
            o = short(f['cls'])
            rhs, ov = (('v', p['n']) for p in f['params'])
            OF, LF, RF = ('f', ov, '_followpos'), ('f', THIS, '_followpos'), ('f', rhs, '_followpos')
            GV = {k: ('in', ('f', b, '_greedy')) for k, b in (('l', THIS), ('r', rhs))}
            hs = [h for h in L.desc if L.container(h) == RF]
            for p in I.paths:
                if p.end[0] != 'ret':
                    continue
                iv = ('f', ov, '_index_vector')
                v = I.val(p, OF)
                common = equal(p, I.size(I.val(p, iv)), 0)
                if v == ('in', OF):
                    continue        # nothing in common
                if v == ('phi', hs[0] if hs else None, OF):
                    ents = {x[2].get(OF) for x in L.entries(hs[0])}
                    ctx.check(ents == {('in', LF)}, 'merge-order', o + ':left-first', f['q'], 'the merged targets start with %s' % sorted(map(show, ents)))
                    for q in L.backs(hs[0]):
                        new = q.ret.get(OF)
                        pushed = isinstance(new, tuple) and new[0] == 'push' and new[1] == L.phi(hs[0], OF) and L.element(hs[0], new[2])
                        if pushed:
                            ctx.ok('merge-order', o + ':right-after', f['q'])
                            continue
                        # left out: only when already there
                        known = any(a[0] == 'eq' and not pol and any(isinstance(t, tuple) and t[0] == 'pure' and t[1] == 'find' and
                                    contains(t, lambda z: L.element(hs[0], z)) for t, _ in a[1]) for a, pol in q.facts.atoms.items())
                        ctx.check(new == L.phi(hs[0], OF) and known, 'merge-order', o + ':right-after', f['q'],
                                  'a target of the later rule is dropped although it is not known to be there already')
                else:
                    s = sources(v)
                    ctx.check(s == [('all', LF), ('all', RF)], 'merge-order', o + ':left-first', f['q'], 'the merged targets are %s' % (s,))
                g = I.val(p, ('f', ov, '_greedy'))
                lz, r2 = equal(p, GV['l'], 0), equal(p, GV['r'], 2)
                if lz is True and r2 is True:
                    want = ({2} | {GV['r']})
                elif lz is True or lz is False:
                    want = {GV['l']} | ({0} if lz else set())
                else:
                    want = {GV['l']}
                # only the overlap with something in common is a merge
                ctx.check(g in want and not (lz is True and r2 is None), 'greedy', o, f['q'], 'earlier rule lazy: %s, later rule hard: %s, merged gets %s' %
                          (lz, r2, show(g)))
        if f['n'] == 'build_equiv_list' and 'body' in f and f.get('cls', '').startswith('lexertl::basic_generator<'):
            if any('true' in p['t'] for p in f['params']):
                order(ctx, F, f, 'basic_equivset')
        if f['n'] == 'fill_rhs_list' and 'body' in f and 'basic_node' in f['params'][0]['t']:
            I = interp(ctx, F, f)
            L = Loops(I)
            C = ('v', f['params'][0]['n'])
            hs = [h for h in L.desc if L.container(h) == C]
            out = ('v', f['params'][2]['n'])
            ok = len(hs) == 1
            for p in (L.backs(hs[0]) if ok else ()):
                v = p.ret.get(out, L.phi(hs[0], out))
                ok = ok and (v == L.phi(hs[0], out) or (isinstance(v, tuple) and v[0] == 'push' and v[1] == L.phi(hs[0], out)))
            ctx.check(ok, 'merge-order', gname(f) + ':in-order', f['q'], 'transitions are not listed in the order of the positions')


def order(ctx, F, f, cls):
    """refinement: list elements (earlier) intersect the next one taken from the front of the rest (later)"""
    I = interp(ctx, F, f, lambda g: g['n'] not in ('intersect', 'fill_rhs_list'))
    o = gname(f)
    out = ('v', f['params'][2]['n'])
    n = 0
    for p in I.paths:
        for e in p.ev:
            if e[0] == 'call' and e[1]['n'] == 'intersect':
                n += 1
                left = e[2]
                arg = e[3][0]
                # left comes from the list built so far, right from the rest
                l_ok = origin(I, p, left, out)
                r_ok = not origin(I, p, arg, out)
                ctx.check(l_ok and r_ok, 'merge-order', o + ':earlier-left', f['q'], 'intersect is called on %s with %s' % (showp(left), show(arg)[:80]))
            if e[0] == 'call' and e[1]['n'] in ('pop_back', 'push_front', 'back', 'reverse', 'sort'):
                ctx.bad('merge-order', o + ':from-front', f['q'], 'the rest is not taken from the front (%s)' % e[1]['n'])
    ctx.check(n > 0, 'merge-order', o + ':merged', f['q'], 'nothing is ever merged')
    ctx.ok('merge-order', o + ':from-front', f['q'])


def showp(P):
    return show(('in', P)) if isinstance(P, tuple) else str(P)


def origin(I, p, v, out):
    """does the object come out of container out (through an iterator that started at its beginning)"""
    seen = set()

    def go(v):
        if not isinstance(v, tuple) or v in seen:
            return False
        seen.add(v)
        if v == ('begin', out) or v == out:
            return True
        if v[0] == 'phi':
            P = None
            for P, n in I.classes[I_block(I, v[1])].items():
                if ('phi', v[1], n) == v:
                    for q in I.paths:
                        for e in q.ev:
                            if e[0] == 'loop' and e[1] == v[1] and P in e[2] and go(e[2][P]):
                                return True
            return False
        return any(go(x) for x in v)
    return go(v)


def I_block(I, h):
    return next(b for b, n in I.hnum.items() if n == h)
