"""C34: every character, rule position and transition finds its way into the tables."""
from common import *
from loops import Loops
from evalx import value, fact, consistent, leaves_of
from c30_priority import gname, uncast, NPOS

THIS = ('v', 'this')
GEN = 'basic_generator'


def run(ctx):
    ctx.rule('common', 'the common part of two sets gets the indexes of both, and a set is dropped exactly when nothing is left of it', 20)
    ctx.rule('remove', 'what two sets have in common is taken out of both', 2)
    ctx.rule('partition', 'splitting a list into disjoint sets keeps every part: what is left of the old one, the common part, and what is left of the new one', 60)
    ctx.rule('collect', 'every character set and every rule position of a row takes part', 24)
    ctx.rule('lookup', 'every character of the n-th set leads to column n, and every rule position of that set knows column n', 20)
    ctx.rule('transition', 'a transition is entered for every character set, line start and line end it is made of', 16)
    ctx.rule('rows', 'every way on from every row is followed and entered, except lazy ways on from a row that accepts lazily', 60)
    ctx.rule('alphabet', 'every row has one column for every set behind the fixed ones, and starts empty', 30)
    ctx.rule('states', 'every start state is built from its own rules', 8)
    F = ctx.facts('d_core')
    for f in F.fns.values():
        if 'body' not in f:
            continue
        c, n, P = f.get('clsname'), f['n'], f['params']
        if c == 'basic_charset' and n == 'intersect':
            charset(ctx, F, f)
        elif c == 'basic_equivset' and n == 'intersect':
            equivset(ctx, F, f)
        elif c in ('basic_charset', 'basic_equivset') and f.get('kind') == 'ctor' and len(P) > 1:
            ctor(ctx, F, f)
        elif c == 'basic_internals' and n == 'add_states':
            addstates(ctx, F, f)
        elif c == GEN and n in ('partition_charsets', 'build_equiv_list'):
            split(ctx, F, f)
        elif c == GEN and n == 'fill_rhs_list':
            (fillsets if len(P) == 2 else fillnodes)(ctx, F, f)
        elif c == GEN and n == 'build_set_mapping':
            mapping(ctx, F, f)
        elif c == GEN and n == 'fill_lookup':
            filllookup(ctx, F, f)
        elif c == GEN and n == 'set_transitions':
            transitions(ctx, F, f)
        elif c == GEN and n == 'build_dfa':
            build(ctx, F, f)
        elif c == GEN and n == 'build':
            outer(ctx, F, f)
    ctx.assume('std::merge, std::set_intersection, std::inserter and std::back_inserter behave as specified by the C++ standard',
               'token sets are combined exactly (C25), rows are looked up by their positions (C30)')


def where_(f):
    return f['q'] + ':%d' % f['l']


def whole(p, I, a, b, P):
    """do the iterators a, b span the container at place P as it is at the call"""
    if a != ('begin', P):
        return False
    n = add(b, a, -1)
    return isinstance(n, tuple) and n[0] == 'size' and (n[1] == ('in', P) or (n[1][0] in ('hv', 'phi') and n[1][-1] == P) or n[1][0] in ('mut', 'push', 'new'))


def known_empty(p, v):
    a = atom_eq(('size', v), 0)
    return p.facts.query(a[0]) is a[1]


def emptiness(p, v):
    a = atom_eq(('size', v), 0)
    q = p.facts.query(a[0])
    return None if q is None else q is a[1]


def calls(p, name):
    return [e for e in p.ev if e[0] == 'call' and e[1]['n'] == name]


# ------------------------------------------------------------------ common parts

def charset(ctx, F, f):
    o = short(f['cls']).replace('basic_', '')
    where = where_(f)
    R, O = [('v', q['n']) for q in f['params']]
    I = interp(ctx, F, f, lambda g: g.get('clsname') == 'basic_charset' or g['n'] in ('empty', 'size'))
    tok = lambda P: ('f', P, '_token')
    idx = lambda P: ('f', P, '_index_set')
    for p in I.paths:
        if p.end[0] != 'ret':
            continue
        cs = calls(p, 'intersect')
        ok = len(cs) == 1 and cs[0][2] == tok(THIS) and [x[1] if x[0] == 'addr' else None for x in cs[0][3]] == [tok(R), tok(O)]
        ctx.check(ok, 'common', o + ': characters', where, 'the common characters are not taken out of both sets\n' + showpath(p))
        if not ok:
            continue
        left = {P: emptiness(p, I.val(p, ('f', tok(P), '_ranges'))) for P in (THIS, R, O)}
        ms = [e for e in p.ev if e[0] == 'call' and e[1]['n'] in ('merge', 'set_union') and 'inserter' in str(e[3])]
        joined = len(ms) == 1 and {a[1] for a in ms[0][3] if isinstance(a, tuple) and a[0] == 'begin'} == {idx(THIS), idx(R)} and ('in', idx(O)) in flat(ms[0][3]) and ms[0][3][0] == ('begin', ms[0][3][0][1]) and spans(ms[0][3], 0) and spans(ms[0][3], 2)
        ins = [e for e in p.ev if e[0] == 'call' and e[1]['n'] == 'insert' and e[2] == idx(O) and len(e[3]) == 2]
        if len(ins) == 2 and {e[3][0] for e in ins} == {('begin', idx(THIS)), ('begin', idx(R))} and all(spans(e[3], 0) for e in ins):
            joined = True
        if left[O] is not True:
            ctx.check(joined, 'common', o + ': indexes', where, 'the common part does not get the indexes of both sets\n' + showpath(p))
        for P in (THIS, R):
            v = I.val(p, idx(P))
            cleared = v == ('empty',)
            if cleared:
                ok = left[P] is True and left[O] is not True or left[P] is True and not joined
                ok = ok and before(p, ms + ins, P, idx)
            else:
                ok = v == ('in', idx(P)) and (left[P] is False or left[O] is True)
            ctx.check(ok, 'common', '%s: %s' % (o, 'own' if P == THIS else 'other'), where, 'indexes %s although %s\n%s' % ('dropped' if cleared else 'kept', 'characters are left' if cleared else 'no character may be left', showpath(p)))


def before(p, es, P, idx):
    """the indexes are read before they are dropped"""
    k = [i for i, e in enumerate(p.ev) if e[0] == 'write' and e[1] == idx(P)]
    j = [i for i, e in enumerate(p.ev) if any(e is m for m in es)]
    return not k or not j or max(j) < min(k)


def spans(args, i):
    a, b = args[i], args[i + 1]
    n = add(b, a, -1)
    return isinstance(a, tuple) and a[0] == 'begin' and isinstance(n, tuple) and n[0] == 'size' and n[1] == ('in', a[1])


def flat(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        out.add(v)
        for x in v:
            flat(x, out)
    return out


def equivset(ctx, F, f):
    o = short(f['cls']).replace('basic_', '')
    where = where_(f)
    R, O = [('v', q['n']) for q in f['params']]
    idx = lambda P: ('f', P, '_index_vector')
    fol = lambda P: ('f', P, '_followpos')
    removers = {g['n'] for g in F.fns.values() if 'body' in g and g.get('cls') == f['cls'] and len(g['params']) == 2 and
                all('vector' in q['t'] for q in g['params']) and g['params'][0]['t'].startswith('const') and not g['params'][1]['t'].startswith('const')}
    I = interp(ctx, F, f, lambda g: g.get('clsname') == 'basic_equivset' and g['n'] not in removers)
    for p in I.paths:
        if p.end[0] not in ('ret', 'back'):
            continue
        cs = calls(p, 'set_intersection')
        ok = len(cs) == 1 and spans(cs[0][3], 0) and spans(cs[0][3], 2) and {cs[0][3][0][1], cs[0][3][2][1]} == {idx(THIS), idx(R)} and ('in', idx(O)) in flat(cs[0][3]) or \
            len(cs) == 1 and spans(cs[0][3], 0) and spans(cs[0][3], 2) and {cs[0][3][0][1], cs[0][3][2][1]} == {idx(THIS), idx(R)} and idx(O) in flat(cs[0][3])
        ctx.check(ok, 'common', o + ': sets', where, 'the common sets are not those in both\n' + showpath(p))
        if p.end[0] != 'ret':
            continue
        oe = emptiness(p, I.val(p, idx(O)))
        if oe is None:
            oe = emptiness(p, ('in', idx(O)))
        rem = {}
        for e in p.ev:
            if e[0] == 'call' and e[1]['n'] in removers:
                rem.setdefault(e[3][1][1] if e[3][1][0] == 'addr' else None, []).append(e[3][0])
        if oe is not True:
            for P in (THIS, R):
                ctx.check(len(rem.get(idx(P), [])) == 1 and rem[idx(P)][0] in (('in', idx(O)), I.val(p, idx(O))), 'common', '%s: taken out of %s' % (o, 'own' if P == THIS else 'other'), where, showpath(p))
        else:
            ctx.check(not rem, 'common', o + ': nothing common', where, showpath(p))
        for P in (THIS, R):
            v = I.val(p, fol(P))
            le = emptiness(p, I.val(p, idx(P)))
            if v == ('empty',):
                ok = le is True and oe is not True
            else:
                ok = le is False or oe is True
            ctx.check(ok, 'common', '%s: %s ways on' % (o, 'own' if P == THIS else 'other'), where, '%s\n%s' % (show(v), showpath(p)))
    for g in F.fns.values():
        if 'body' in g and g.get('cls') == f['cls'] and g['n'] in removers:
            remover(ctx, F, g)


def remover(ctx, F, f):
    """dest loses exactly the elements of source (both sorted, source part of dest)"""
    o = short(f['cls']).replace('basic_', '') + '::' + f['n']
    where = where_(f)
    S, D = [('v', q['n']) for q in f['params']]
    I = interp(ctx, F, f, lambda g: False)
    L = Loops(I)
    bS, bD = ('begin', S), ('begin', D)
    nS, nD = ('size', ('in', S)), ('size', ('in', D))
    endS, endD = add(bS, nS), add(bD, nD)
    diff = [e for p in I.paths for e in calls(p, 'set_difference')]
    if diff:
        for p in I.paths:
            if p.end[0] != 'ret':
                continue
            cs = calls(p, 'set_difference')
            v = I.val(p, D)
            ok = len(cs) == 1 and [a[1] for a in cs[0][3][:4:2]] == [D, S] and spans(cs[0][3], 0) and spans(cs[0][3], 2) and v != ('in', D) and not L.block
            ctx.check(ok, 'remove', o, where, showpath(p))
        return
    # roles of the loop variables: source position, reading position, writing position
    reading = {}
    for h in sorted(L.block):
        backs = L.backs(h)
        cls = I.classes[L.block[h]]
        ph = {P: L.phi(h, P) for P in cls}
        moved = {}
        for p in backs:
            for P in cls:
                if P[0] == 'v' and add(p.ret.get(P, ph[P]), ph[P], -1) == 1:
                    moved.setdefault(P, []).append(p)
        wr = {e[1][1] for p in backs for e in p.ev if e[0] == 'write' and e[1][0] == 'd'}
        rd = {e[2][1][1] for p in backs for e in p.ev if e[0] == 'write' and isinstance(e[2], tuple) and e[2][0] == 'in' and e[2][1][0] == 'd'}
        W = [P for P in cls if ph[P] in wr]
        Rr = [P for P in cls if ph[P] in rd]
        X = [P for P in moved if P not in W and P not in Rr]
        if len(W) != 1 or len(Rr) != 1:
            ctx.bad('remove', '%s: loop' % o, where, 'no element is copied from one position to another')
            continue
        W, Rr = W[0], Rr[0]
        reading[h] = ph[Rr]
        first = all(e[0] != 'loop' for p, k, _ in L.entries(h) for e in p.ev[:k])
        ok = True
        why = ''
        for p in backs:
            w = [(e[1], e[2]) for e in p.ev if e[0] == 'write' and e[1][0] == 'd']
            w = [x for x in w if x[0][1][0] == 'phi' and x[0][1][1] == h]
            nW, nR = add(p.ret.get(W, ph[W]), ph[W], -1), add(p.ret.get(Rr, ph[Rr]), ph[Rr], -1)
            same = None
            if len(X) == 1:
                a = atom_eq(('in', ('d', ph[X[0]])), ('in', ('d', ph[Rr])))
                q = p.facts.query(a[0])
                same = None if q is None else q is a[1]
                nX = add(p.ret.get(X[0], ph[X[0]]), ph[X[0]], -1)
            if same is True:
                good = not w and nW == 0 and nR == 1 and nX == 1
            else:
                good = len(w) == 1 and w[0] == (('d', ph[W]), ('in', ('d', ph[Rr]))) and nW == 1 and nR == 1 and (not X or (same is False and nX == 0))
            if not good:
                ok, why = False, showpath(p)
        for p, k, ent in L.entries(h):
            if first:
                st = ent.get(Rr)
                fnd = isinstance(st, tuple) and st[0] == 'pure' and st[1] in ('find', 'lower_bound') and st[2][0] == bD and st[2][1] == endD and st[2][2] in (('in', ('i', S, 0)), ('in', ('d', bS)))
                if ent.get(W) != ent.get(Rr) or not (st == bD or fnd) or (X and ent.get(X[0]) != bS):
                    ok, why = False, 'starts at %s' % {show(a): show(b) for a, b in ent.items()}
            else:
                prev = [e for e in p.ev[:k] if e[0] == 'loop'][-1][1]
                pc = I.classes[L.block[prev]]
                if ent.get(W, ('phi', prev, pc.get(W))) != ('phi', prev, pc.get(W)) or ent.get(Rr, ('phi', prev, pc.get(Rr))) != ('phi', prev, pc.get(Rr)):
                    ok, why = False, 'goes on at %s' % {show(a): show(b) for a, b in ent.items()}
        ctx.check(ok, 'remove', '%s: round of loop %d' % (o, h), where, why)
    for p in I.paths:
        if p.end[0] != 'ret':
            continue
        # everything was read
        hs = [e[1] for e in p.ev if e[0] == 'loop']
        a = atom_eq(reading[hs[-1]], endD) if hs and hs[-1] in reading else None
        done = a is not None and p.facts.query(a[0]) is a[1]
        v = I.val(p, D)
        size = None
        if isinstance(v, tuple) and v[0] == 'mut':
            if v[1] == 'resize' and len(v[3]) == 1:
                size = add(v[3][0], nD, -1) == add(0, nS, -1)
            if v[1] == 'erase' and len(v[3]) == 2 and v[3][1] == endD:
                size = v[3][0][0] == 'phi' and any(L.phi(h, P) == v[3][0] for h in hs[-1:] for P in I.classes[L.block[h]])
        ctx.check(done and size is True, 'remove', o + ': end', where, 'all read: %s, left with %s\n%s' % (done, show(v), showpath(p)))


def ctor(ctx, F, f):
    o = short(f['cls']).replace('basic_', '')
    where = where_(f)
    I = interp(ctx, F, f, lambda g: False)
    P = [q['n'] for q in f['params']]
    for p in I.paths:
        if p.end[0] != 'ret':
            continue
        fld = lambda n: I.val(p, ('f', THIS, n))
        if f['clsname'] == 'basic_charset':
            ok = fld('_token') == ('in', ('v', P[0])) and ('in', ('v', P[1])) in flat(fld('_index_set')) and fld('_index_set')[0] == 'mut'
        else:
            v = fld('_index_vector')
            S = ('v', P[0])
            ok = isinstance(v, tuple) and v[0] == 'new' and len(v[2]) == 2 and v[2][0] == ('begin', S) and add(v[2][1], ('begin', S), -1) == ('size', ('in', S)) and \
                fld('_greedy') == ('in', ('v', P[2])) and fld('_followpos') == ('in', ('v', P[3]))
        ctx.check(ok, 'collect', o + ': construction', where, showpath(p))


# ------------------------------------------------------------------ partitions

def fields(T):
    return ('_index_vector',) if 'equivset' in T else ('_token', '_ranges')


def at(T, obj):
    P = obj
    for n in fields(T):
        P = ('f', P, n)
    return P


def split(ctx, F, f):
    kind = f['n']
    o = '%s::%s' % (gname(f), kind)
    where = where_(f)
    truth = 'true' in f['params'][-1]['t']
    T = 'equivset' if kind == 'build_equiv_list' else 'charset'
    I = interp(ctx, F, f, lambda g: g['n'] not in ('intersect', 'fill_rhs_list'))
    L = Loops(I)
    out = ('v', f['params'][-2]['n'])
    srcs = [('in', ('v', q['n'])) for q in f['params'][:-2]]
    if not truth:
        for p in I.paths:
            cs = calls(p, 'fill_rhs_list')
            ctx.check(len(cs) == 1 and cs[0][3][-1] == ('addr', out) and list(cs[0][3][:-1]) == srcs and p.end[0] == 'ret', 'collect', o + ' (nfa)', where, showpath(p))
        return
    ctx.check(any(calls(p, 'intersect') for p in I.paths), 'partition', o + ': compared', where, 'sets are never compared')
    rhs = None
    for p in I.paths:
        cs = calls(p, 'fill_rhs_list')
        ok = len(cs) == 1 and list(cs[0][3][:-1]) == srcs and cs[0][3][-1][0] == 'addr'
        ctx.check(ok, 'collect', o + ': input', where, showpath(p))
        if not ok:
            return
        rhs = cs[0][3][-1][1]
    for p in I.paths:
        if p.end[0] == 'throw':
            ctx.bad('partition', o, where, showpath(p))
            continue
        if p.end[0] == 'unreach':
            continue
        hs = [e[1] for e in p.ev if e[0] == 'loop']
        # the first goes to the result as it is
        if p.end[0] == 'ret':
            ok = exhausted(I, L, p, rhs)
            ctx.check(ok, 'partition', o + ': all taken', where, 'returns with sets left\n' + showpath(p))
            if not hs:
                fin = I.val(p, out)
                ctx.check(fin == ('in', out) or (fin[0] == 'push' and moved(fin[2], rhs)), 'partition', o + ': nothing', where, showpath(p))
            continue
        h = p.end[1]
        outermost = hs and h == hs[0]
        ent = [e for e in p.ev if e[0] == 'loop' and e[1] == hs[0]][0][2]
        first = ent.get(out)
        k0 = [i for i, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == hs[0]][0]
        npop = len([e for e in p.ev[:k0] if e[0] == 'call' and e[1]['n'] in ('pop_front', 'erase') and e[2] == rhs])
        npush = len([e for e in p.ev[:k0] if e[0] == 'call' and e[1]['n'] in ('push_back', 'push_front', 'emplace_back', 'splice') and e[2] == out])
        ctx.check(npop == npush, 'partition', o + ': first set', where, '%d sets taken, %d kept\n%s' % (npop, npush, showpath(p)))
        if first is not None and first != ('in', out):
            ctx.check(first[0] == 'push' and first[1] == ('in', out) and moved(first[2], rhs) and popped(ent.get(rhs, I.val(p, rhs)), 1) or popped2(p, rhs, hs[0]), 'partition', o + ': first', where, 'the first set is not kept: %s' % show(first))
        r = taken_front(p, rhs, hs[0])
        if r is None:
            ctx.bad('partition', o + ': next', where, 'a round does not take the next set\n' + showpath(p))
            continue
        round_(ctx, I, L, p, o, where, T, out, rhs, r, hs, outermost)


def exhausted(I, L, p, rhs):
    for v in [I.val(p, rhs)] + [('phi', h, I.classes[L.block[h]][rhs]) for h in L.block if rhs in I.classes.get(L.block[h], {})]:
        if known_empty(p, v):
            return True
    return any(pol and a[0] == 'eq' and any(isinstance(t, tuple) and t[0] == 'size' and rhs in flat(t) for t, _ in a[1]) for a, pol in p.facts.atoms.items())


def moved(v, rhs):
    """v is the front of list rhs"""
    return isinstance(v, tuple) and (v[0] == 'in' and v[1] == ('i', rhs, 0) or v[0] in ('hv', 'phi') and v[-1] == ('i', rhs, 0) or v[0] == 'idx' and v[2] == 0 and rhs in flat(v[1]))


def popped(v, n):
    while isinstance(v, tuple) and v[0] in ('upd',):
        v = v[1]
    return isinstance(v, tuple) and v[0] == 'mut' and v[1] in ('pop_front', 'erase')


def popped2(p, rhs, h0):
    for e in p.ev:
        if e[0] == 'loop' and e[1] == h0:
            return False
        if e[0] == 'call' and e[1]['n'] in ('pop_front', 'erase') and e[2] == rhs:
            return True
    return False


def taken_front(p, rhs, h0):
    """the set of this round: the front of the list, which then is taken off"""
    k = [i for i, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == h0][0]
    pops = [e for e in p.ev[k + 1:] if e[0] == 'call' and e[1]['n'] in ('pop_front', 'erase') and e[2] == rhs]
    if len(pops) != 1:
        return None
    return ('phi', h0, ('i', rhs, 0))


def objects(v):
    return isinstance(v, tuple)


def round_(ctx, I, L, p, o, where, T, out, rhs, r, hs, outermost):
    cs = calls(p, 'intersect')
    inner = hs[1] if len(hs) > 1 else None
    if len(cs) > 1:
        ctx.bad('partition', o + ': round', where, 'two sets are compared in one round\n' + showpath(p))
        return
    fin = {P: (p.ret[P] if P in p.ret else I.val(p, P)) for P in {out} | {P for P in I.classes.get(L.block[p.end[1]], {})}}
    lists = [fin[out]]
    if not cs:
        # nothing compared: the set of this round has run out of partners, or is empty
        if not outermost:
            ctx.bad('partition', o + ': round', where, 'a round without a comparison\n' + showpath(p))
            return
        R, Rp = current(I, L, p, r, inner)
        kept = contains(lists[0], R)
        # the loop ends here: at the end of the list, or with an empty set
        atend = ended(I, L, p, inner, out)
        e = obj_empty(I, p, T, R)
        ctx.check(kept and atend or e is True, 'partition', o + ': rest', where, 'what is left of a set is %s\n%s' % ('kept too early' if kept else 'dropped', showpath(p)))
        return
    c = cs[0]
    lp = c[2]                      # place of the old set
    rp = c[3][0][1] if c[3][0][0] == 'addr' else None
    op = c[3][1][1] if c[3][1][0] == 'addr' else None
    slot = None
    if lp[0] == 'd' and isinstance(lp[1], tuple) and lp[1][0] == 'in' and lp[1][1][0] == 'd':
        slot = lp[1][1][1]         # iterator
    if slot is None or rp is None or op is None or rp[0] != 'd' or op[0] != 'd' or slot[0] != 'phi' or slot[1] != inner:
        ctx.bad('partition', o + ': round', where, 'the comparison is not between the set of this round and the one the round stands at\n' + showpath(p))
        return
    itP = next(P for P in I.classes[L.block[inner]] if L.phi(inner, P) == slot)
    ov = op[1]
    k = p.ev.index(c)
    R, Rp = current(I, L, p, r, inner)
    ctx.check(rp[1] == R, 'partition', o + ': compared set', where, 'compares %s\n%s' % (show(rp[1]), showpath(p)))
    ctx.check(len([e for e in p.ev if e[0] == 'loop' and e[1] == inner and (e[2].get(itP) == ('begin', out))]) == 1, 'partition', o + ': from the start', where, 'the list is not compared from its beginning\n' + showpath(p))
    le, re_, oe = (obj_empty(I, p, T, x) for x in (lp[1], rp[1], op[1]))
    after = p.ev[k + 1:]
    writes = [(e[1], e[2]) for e in after if e[0] == 'write']
    slotw = [v for P, v in writes if P == ('d', slot)]
    where_o = []
    # 1. the old set
    if slotw:
        ctx.check(le is True, 'partition', o + ': old set', where, 'the rest of a set is replaced by %s\n%s' % (show(slotw[-1]), showpath(p)))
        if slotw[-1] == ov:
            where_o.append('slot')
    erased = [e for e in after if e[0] == 'call' and e[1]['n'] in ('erase', 'pop_front', 'pop_back', 'clear', 'remove') and e[2] == out]
    ctx.check(not erased or le is True, 'partition', o + ': old set kept', where, 'a set is taken off the list\n' + showpath(p))
    # 2. the common part
    ins = None
    for e in after:
        if e[0] == 'call' and e[1]['n'] in ('insert', 'emplace') and e[2] == out:
            ins = e
            if len(e[3]) > 1 and e[3][1] == ov:
                where_o.append('inserted')
            if any(P == ('d', e[4]) and v == ov for P, v in writes):
                where_o.append('inserted')
    if contains(lists[0], ov):
        where_o.append('appended')
    newr = None
    if Rp is not None:
        nr = p.ret.get(Rp, R) if not outermost else I.val(p, Rp)
        newr = nr
    if newr == ov:
        where_o.append('current')
    if oe is not True:
        ctx.check(len(where_o) >= 1, 'partition', o + ': common part', where, 'the common part is dropped\n' + showpath(p))
    # the common part is written afresh afterwards
    ovP = next((P for P in I.classes[L.block[inner]] if L.phi(inner, P) == ov), None)
    if where_o and ovP is not None:
        nv = p.ret.get(ovP, I.val(p, ovP))
        ctx.check(isinstance(nv, tuple) and nv[0] == 'alloc' and nv != ov, 'partition', o + ': fresh', where, 'the next common part is written over the last one (%s)\n%s' % (show(nv), showpath(p)))
    # 3. what is left of the new set
    if outermost:
        kept = contains(lists[0], R)
        ctx.check(kept or re_ is True, 'partition', o + ': new set', where, 'what is left of the new set is dropped\n' + showpath(p))
        if kept:
            # must have met every set of the list
            ctx.check(re_ is True or ended(I, L, p, inner, out), 'partition', o + ': new set early', where, showpath(p))
    else:
        if newr is not None and newr != R:
            ctx.check(re_ is True and newr == ov, 'partition', o + ': new set', where, 'what is left of the new set is replaced by %s\n%s' % (show(newr), showpath(p)))
        ni = p.ret.get(itP, slot)
        ok = add(ni, slot, -1) == 1
        if ins is not None:
            d = add(ni, ins[4], -1)
            ok = ok or d in (0, 1) and add(ins[3][0], slot, -1) == 1 or d == 2 and ins[3][0] == slot
        ctx.check(ok, 'partition', o + ': next old set', where, 'the round goes on at %s\n%s' % (show(ni), showpath(p)))
        endP = [P for P, v in p.ret.items() if P[0] == 'v' and P not in (itP, out, rhs, ovP, Rp)]
        for P in endP:
            v = p.ret[P]
            if isinstance(v, tuple) and v[0] == 'phi' and v[1] == inner:
                continue


def current(I, L, p, r, inner):
    """object the set of this round is kept in: (value, variable or None)"""
    for P, v in ((P, L.phi(inner, P)) for P in (I.classes.get(L.block.get(inner), {}) if inner is not None else {})):
        if P[0] == 'v':
            for e in p.ev:
                if e[0] == 'loop' and e[1] == inner and moved(e[2].get(P), rhs_of(r)):
                    return v, P
    # not a loop variable: the front as it was taken
    for e in p.ev:
        if e[0] == 'call' and e[1]['n'] == 'intersect' and e[3][0][0] == 'addr' and e[3][0][1][0] == 'd' and moved(e[3][0][1][1], rhs_of(r)):
            P = next((P for P in p.places() if P[0] == 'v' and I.val(p, P) == e[3][0][1][1]), None) if hasattr(p, 'places') else None
            return e[3][0][1][1], P
    for a in p.facts.atoms:
        for t in flat(a):
            if moved(t, rhs_of(r)) and t[0] in ('phi', 'in', 'hv'):
                return t, None
    return r, None


def rhs_of(r):
    return r[2][1]


def contains(lst, v):
    while isinstance(lst, tuple):
        if lst[0] == 'push':
            if lst[2] == v:
                return True
            lst = lst[1]
        elif lst[0] == 'mut':
            if lst[1] in ('insert', 'emplace', 'emplace_back', 'push_front') and v in lst[3]:
                return True
            lst = lst[2]
        elif lst[0] == 'upd':
            if any(x == v for _, x in lst[2]):
                return True
            lst = lst[1]
        else:
            return False
    return False


def obj_empty(I, p, T, obj):
    return emptiness(p, I.val(p, at(T, ('d', obj))))


def ended(I, L, p, inner, out):
    """does partition p leave the inner loop because the list is exhausted"""
    if inner is None:
        return False
    c = I.classes[L.block[inner]]
    its = [L.phi(inner, P) for P in c for e in p.ev if e[0] == 'loop' and e[1] == inner and e[2].get(P) == ('begin', out)]
    for a, pol in p.facts.atoms.items():
        if a[0] == 'eq' and pol:
            ts = dict(a[1])
            if any(t in ts for t in its) and len(ts) >= 2:
                return True
    return False


# ------------------------------------------------------------------ collecting

def fillsets(ctx, F, f):
    o = '%s::%s' % (gname(f), f['n'])
    where = where_(f)
    M, O = [('v', q['n']) for q in f['params']]
    I = interp(ctx, F, f, lambda g: True)
    L = Loops(I)
    hs = list(L.block)
    ok = len(hs) == 1 and L.container(hs[0]) == M
    ctx.check(ok, 'collect', o + ': sets', where, 'not every set of the map is visited')
    if not ok:
        return
    d = L.desc[hs[0]]['phi']
    for p in L.backs(hs[0]):
        v = I.val(p, O)
        ok = v[0] == 'push' and v[1] == ('phi', hs[0], O) and v[2][0] == 'alloc' and [part(I, p, x) for x in v[2][3]] == [('in', ('f', ('d', d), 'first')), ('in', ('f', ('d', d), 'second'))]
        ctx.check(ok, 'collect', o + ': set', where, showpath(p))


def part(I, p, x):
    while isinstance(x, tuple) and x[0] in ('cast',):
        x = x[2]
    if isinstance(x, tuple) and x[0] == 'addr':
        return ('in', x[1])
    return x


def fillnodes(ctx, F, f):
    o = '%s::%s' % (gname(f), f['n'])
    where = where_(f)
    V, M, O = [('v', q['n']) for q in f['params']]
    I = interp(ctx, F, f, lambda g: True)
    L = Loops(I)
    hs = [h for h in L.block if L.container(h) == V]
    ctx.check(len(hs) == 1, 'collect', o + ': positions', where, 'not every position of the row is visited')
    if len(hs) != 1:
        return
    h = hs[0]
    N = NPOS[idtype(f)]
    node = ('in', ('d', ('in', ('d', L.desc[h]['phi']))))
    m = lambda n: ('m', n, node, ())
    for end in (0, 1):
        for tok in (0, 3, N, N - 1, N - 2):
            env = {m('end_state'): end, m('token'): tok}
            ps = [p for p in L.backs(h) if consistent(p, env)]
            if not ps:
                ctx.bad('collect', '%s: end %d token %d' % (o, end, tok), where, 'not decided')
            for p in ps:
                v = I.val(p, O)
                if end or tok == N:
                    ok = v == ('phi', h, O)
                else:
                    ok = v[0] == 'push' and v[1] == ('phi', h, O) and v[2][0] == 'alloc' and len(v[2][3]) == 4
                    if ok:
                        s, _, g, fp = [part(I, p, x) for x in v[2][3]]
                        ok = g == m('greedy') and fp in (m('followpos'), ('in', ('d', m('&followpos'))))
                        if tok >= N - 2:
                            ok = ok and s[0] == 'mut' and s[1] in ('insert', 'emplace') and s[2] == ('empty',) and len(s[3]) == 1 and (value(s[3][0], env) == tok)
                        else:
                            ok = ok and s[0] == 'in' and s[1][0] == 'i' and s[1][1] == M and s[1][2] == m('token')
                ctx.check(ok, 'collect', '%s: end %d token %s' % (o, end, tok if tok < 9 else 'npos-%d' % (N - tok)), where, show(v) + '\n' + showpath(p))


def idtype(f):
    for q in f['params']:
        for t in ('unsigned char', 'unsigned short', 'unsigned int', 'unsigned long'):
            if 'basic_equivset<%s>' % t in q['t'] or 'basic_node<%s>' % t in q['t'] or 'basic_internals<%s>' % t in q['t']:
                return t
    raise CheckError('id type of ' + f['q'])


# ------------------------------------------------------------------ columns

def mapping(ctx, F, f):
    o = '%s::%s' % (gname(f), f['n'])
    where = where_(f)
    C, N, D, M = [('v', q['n']) for q in f['params']]
    I = interp(ctx, F, f, lambda g: g['n'] != 'fill_lookup')
    L = Loops(I)
    outer = [h for h in L.block if L.container(h) == C]
    ctx.check(len(outer) == 1, 'lookup', o + ': sets', where, 'not every set gets a column')
    if len(outer) != 1:
        return
    h = outer[0]
    it = L.desc[h]['phi']
    cls = I.classes[L.block[h]]
    elem = ('in', ('d', it))
    # a counter that starts at 0 and steps once a set, or the position itself
    cnt = [P for P in cls if P[0] == 'v' and {e[2].get(P) for p in I.paths for e in p.ev if e[0] == 'loop' and e[1] == h} == {0} and
           {add(p.ret.get(P, ('phi', h, cls[P])), ('phi', h, cls[P]), -1) for p in L.backs(h)} == {1}]
    nums = [L.phi(h, P) for P in cnt]
    num = lambda v: uncast(v) in nums or add(it, ('begin', C), -1) == uncast(v)
    for p in I.paths:
        if not any(e[0] == 'loop' and e[1] == h for e in p.ev) or p.end[0] == 'ret':
            continue
        cs = calls(p, 'fill_lookup')
        ok = len(cs) == 1 and num(cs[0][3][2]) and cs[0][3][1] == ('addr', ('i', ('f', N, '_lookup'), ('in', D))) and cs[0][3][0] == ('in', ('f', ('d', elem), '_token'))
        ctx.check(ok, 'lookup', o + ': characters', where, showpath(p))
    inner = [g for g in L.block if g != h]
    ok = len(inner) == 1 and L.container(inner[0]) == ('f', ('d', elem), '_index_set')
    ctx.check(ok, 'lookup', o + ': positions', where, 'not every position of a set is visited')
    if ok:
        for p in L.backs(h):
            went = any(e[0] == 'loop' and e[1] == inner[0] for e in p.ev)
            ctx.check(went or known_empty(p, ('in', ('f', ('d', elem), '_index_set'))), 'lookup', o + ': every set', where, 'the positions of a set are passed over\n' + showpath(p))
        for p in L.backs(inner[0]):
            x = ('in', ('d', L.desc[inner[0]]['phi']))
            ins = [e for e in p.ev if e[0] == 'call' and e[1]['n'] in ('insert', 'emplace') and e[2] == ('i', M, x)]
            ctx.check(len(ins) == 1 and num(ins[0][3][-1]), 'lookup', o + ': column', where, showpath(p))


def filllookup(ctx, F, f):
    o = '%s::%s' % (gname(f), f['n'])
    where = where_(f)
    I = interp(ctx, F, f, lambda g: True)
    if 'false' in f['params'][-1]['t']:
        return
    L = Loops(I)
    C, K, X = f['params'][0]['n'], f['params'][1]['n'], f['params'][2]['n']
    C = ('f', ('v', C), '_ranges')
    outer = [h for h in L.block if L.container(h) == C]
    ctx.check(len(outer) == 1, 'lookup', o + ': ranges', where, 'not every range is entered')
    if len(outer) != 1:
        return
    h = outer[0]
    d = L.desc[h]['phi']
    a, b = ('in', ('f', ('d', d), 'first')), ('in', ('f', ('d', d), 'second'))
    bad = None
    col = {('in', ('v', X)): 4}

    def slot(P):
        if P[0] == 'i' and P[1] == ('d', ('in', ('v', K))):
            return P[2]
        if P[0] == 'd':
            return add(P[1], ('begin', ('d', ('in', ('v', K)))), -1)
        return None
    cover = {}
    for g in L.block:
        if g == h:
            continue
        D = L.desc.get(g)
        cover[g] = set()
        for p in L.backs(g):
            ws = [(slot(e[1]), e[2]) for e in p.ev if e[0] == 'write' and e[1][0] in ('i', 'd') and slot(e[1]) is not None]
            ph = D and D['phi']
            if D is None or len(ws) != 1 or value(ws[0][1], col) != 11 or ws[0][0] != ph:
                bad = bad or 'a round enters %s' % [(show(x), show(v)) for x, v in ws]
                continue
            # characters covered: start .. bound-1 (both ends inside the range)
            lo, hi = add(D['start'], a, -1), add(D['bound'], b, -1)
            if D['down'] or lo not in (0, 1) or hi not in (0, 1):
                bad = bad or 'characters from %s to before %s' % (show(D['start']), show(D['bound']))
                continue
            cover[g] |= {'middle'} | ({'first'} if lo == 0 else set()) | ({'last'} if hi == 1 else set())
    for p in L.backs(h):
        got = set()
        for e in p.ev:
            if e[0] == 'loop' and e[1] != h:
                got |= cover.get(e[1], set())
            if e[0] == 'write' and e[1][0] in ('i', 'd'):
                s = slot(e[1])
                if s is None:
                    continue
                if s not in (a, b):
                    bad = bad or show(e[1])
                else:
                    got.add('last' if s == b else 'first')
                if value(e[2], col) != 11:
                    bad = bad or 'column %s' % show(e[2])
        ctx.check(bad is None and got == {'first', 'middle', 'last'}, 'lookup', o + ': characters', where, (bad or 'entered: %s of a range' % sorted(got)) + '\n' + showpath(p))


def addstates(ctx, F, f):
    o = short(f['cls'])
    where = where_(f)
    I = interp(ctx, F, f, lambda g: True)
    L = Loops(I)
    num = ('in', ('v', f['params'][0]['n']))
    ok = len(L.block) == 1
    for h in L.block:
        d = L.desc.get(h)
        ok = ok and d and d['start'] == 0 and d['bound'] == num
        for p in L.backs(h):
            v = I.val(p, ('f', THIS, '_lookup'))
            r = v[2] if v[0] == 'push' else None
            okv = r is not None and r[0] == 'new' and len(r[2]) >= 2 and r[2][0] == 256 and value(r[2][1], {}) == 6
            ctx.check(okv, 'lookup', o + ': initial', where, 'a character without a set leads to %s' % show(v))
            for n in ('_dfa_alphabet', '_dfa'):
                v = I.val(p, ('f', THIS, n))
                ctx.check(v[0] == 'push' and v[1] == ('phi', h, ('f', THIS, n)) or v[0] == 'mut' and v[1] == 'emplace_back', 'states', o + '.' + n, where, show(v))
    ctx.check(bool(ok), 'states', o + ': one per state', where, 'not one entry per state')


# ------------------------------------------------------------------ transitions

def transitions(ctx, F, f):
    o = '%s::%s' % (gname(f), f['n'])
    where = where_(f)
    T, E, D, R, X, S = [('v', q['n']) for q in f['params']]
    N = NPOS[idtype(f)]
    I = interp(ctx, F, f, lambda g: True)
    L = Loops(I)
    C = ('f', ('d', ('in', E)), '_index_vector')
    hs = [h for h in L.block if L.container(h) == C]
    ctx.check(len(hs) == 1 and len(L.block) == 1, 'transition', o + ': all', where, 'not every set of the transition is visited')
    if len(hs) != 1:
        return
    h = hs[0]
    x = ('in', ('d', L.desc[h]['phi']))
    for v in (0, 1, 5, 77, N - 1, N - 2):
        env = {x: v, ('in', R): 1000, ('in', X): 40, ('in', T): 9, ('begin', D): 5000}
        ps = [p for p in L.backs(h) if consistent(p, env)]
        if not ps:
            ctx.bad('transition', '%s: %d' % (o, v), where, 'not decided')
        for p in ps:
            ws = []
            for e in p.ev:
                if e[0] == 'write' and e[1][0] in ('d', 'i'):
                    P = e[1]
                    if P[0] == 'i' and P[1] == D:
                        a = value(P[2], env)
                        a = None if a is None else a + 5000
                    elif P[0] == 'd':
                        a = value(P[1], env)
                    else:
                        a = 'elsewhere'
                    ws.append((a, value(e[2], env)))
            ins = [(e[2], value(e[3][-1], env)) for e in p.ev if e[0] == 'call' and e[1]['n'] in ('insert', 'emplace')]
            if v == N - 1:
                want, wi = [(5000, 9)], []
            elif v == N - 2:
                want, wi = [(1005, 9)], [(S, 41)]
            else:
                want, wi = [(1007 + v, 9)], []
            ctx.check(ws == want and ins == wi, 'transition', '%s: %s' % (o, {N - 1: 'line start', N - 2: 'line end'}.get(v, v)), where, 'enters %s%s\n%s' % (ws, ' and notes %s' % [(show(a), b) for a, b in ins] if ins else '', showpath(p)))


# ------------------------------------------------------------------ rows

KEEP = ('partition_charsets', 'build_set_mapping', 'closure', 'build_equiv_list', 'prune_eol_clashes', 'set_transitions', 'fix_clashes', 'append_dfa')


def build(ctx, F, f):
    o = '%s::%s' % (gname(f), f['n'])
    where = where_(f)
    N = NPOS[idtype(f)]
    I = interp(ctx, F, f, lambda g: g['n'] not in KEEP and g.get('clsname') != 'basic_string_token')
    L = Loops(I)
    pn = [('v', q['n']) for q in f['params']]
    MAP, ROOT, INT, IDX = pn[0], pn[1], pn[2], pn[4]
    DFA = ('i', ('f', INT, '_dfa'), ('in', IDX))
    ALPHA = ('i', ('f', INT, '_dfa_alphabet'), ('in', IDX))
    seen = {'back': 0, 'done': 0, 'rows': 0}

    def size_term(p):
        c = calls(p, 'partition_charsets')
        if len(c) != 1 or c[0][3][0] not in (('in', MAP),) or c[0][3][1][0] != 'addr':
            return None, None
        lst = c[0][3][1][1]
        return lst, c[0]
    for p in I.paths:
        if p.end[0] in ('unreach', 'throw'):
            continue
        lst, pc = size_term(p)
        ctx.check(lst is not None, 'alphabet', o + ': sets', where, 'the sets of the state are not split\n' + showpath(p))
        if lst is None:
            continue
        mc = calls(p, 'build_set_mapping')
        cl = calls(p, 'closure')
        rs = [e for e in p.ev if e[0] == 'call' and e[1]['n'] in ('resize', 'assign') and e[2] == DFA]
        ok = len(mc) == 1 and mc[0][3][0] != ('in', lst) and mc[0][3][0][0] in ('hv', 'phi') and mc[0][3][0][-1] == lst and mc[0][3][1] == ('addr', INT) and mc[0][3][2] == ('in', IDX) and mc[0][3][3][0] == 'addr'
        ctx.check(ok, 'alphabet', o + ': columns', where, 'columns are not given to the split sets of this state\n' + showpath(p))
        if not ok or not cl or len(rs) != 1:
            ctx.bad('alphabet', o + ': first row', where, showpath(p))
            continue
        smap = mc[0][3][3][1]
        srs = [e for e in p.ev[:p.ev.index(mc[0])] if e[0] == 'call' and e[1]['n'] == 'resize' and e[2] == smap]
        ctx.check(len(srs) == 1 and add(srs[0][3][0], ('size', ('in', MAP)), -1) == 0, 'alphabet', o + ': mapping', where, 'no room for every set\n' + showpath(p))
        n = ('size', mc[0][3][0])
        A = rs[0][3][0]
        extra = add(A, n, -1)
        ctx.check(extra in (7, 8) and (len(rs[0][3]) == 1 or rs[0][3][1] == 0) and p.ev.index(rs[0]) < p.ev.index(cl[0]), 'alphabet', o + ': width', where, 'a row has %s columns\n%s' % (show(A), showpath(p)))
        wa = [e for e in p.ev if e[0] == 'write' and e[1] == ALPHA]
        ctx.check(len(wa) == 1 and uncast(wa[0][2]) == A and p.ev.index(wa[0]) > p.ev.index(mc[0]), 'alphabet', o + ': recorded', where, showpath(p))
        # first row
        e0 = cl[0]
        ctx.check(all(uncast(e[3][4]) == A and e[3][5] == ('addr', DFA) for e in cl), 'alphabet', o + ': rows', where, 'a row gets another width\n' + showpath(p))
        ctx.check(e0[3][0] in (('in', ('f', ('d', ('in', ROOT)), '_firstpos')), ('m', 'firstpos', ('in', ('d', ('in', ROOT))), ())), 'rows', o + ': first row', where, 'the first row is not made of the first positions of the rules\n' + showpath(p))
        SV = e0[3][2][1] if e0[3][2][0] == 'addr' else None
        hs = [e[1] for e in p.ev[p.ev.index(e0):] if e[0] == 'loop']
        if p.end[0] == 'back' and p.end[1] not in hs:
            ctx.bad('rows', o + ': first row', where, 'the first row is made in a loop\n' + showpath(p))
            continue
        if not hs or SV is None:
            ctx.bad('rows', o + ': loop', where, showpath(p))
            continue
        h0 = hs[0]
        ent = [e for e in p.ev if e[0] == 'loop' and e[1] == h0][0][2]
        cls0 = I.classes[L.block[h0]]
        cnt = [P for P in cls0 if P[0] == 'v' and ent.get(P) == 0]
        rowsP = [t for P in cls0 if P == SV for t in [L.phi(h0, P)]]
        if len(cnt) < 1 or not rowsP:
            ctx.bad('rows', o + ': loop', where, 'rows are not counted from 0\n' + showpath(p))
            continue
        cand = [P for P in cnt if {add(q.ret.get(P, 0), L.phi(h0, P), -1) for q in L.backs(h0)} == {1}]
        if len(cand) != 1:
            ctx.bad('rows', o + ': loop', where, 'not every row is visited once\n' + showpath(p))
            continue
        ix = L.phi(h0, cand[0])
        sz = ('size', rowsP[0])
        # 0 <= index < number of rows
        inside = [(i, m) for i in (0, 1, 2) for m in (1, 2) if consistent(p, {ix: i, sz: m})]
        if p.end[0] == 'ret':
            ctx.check(inside == [(i, m) for i in (0, 1, 2) for m in (1, 2) if i >= m], 'rows', o + ': every row', where, 'ends although rows are left: %s\n%s' % (inside, showpath(p)))
            seen['done'] += 1
            fc = calls(p, 'fix_clashes')
            ap = calls(p, 'append_dfa')
            ctx.check(len(fc) == 1 and fc[0][3][4] == ('addr', DFA) and len(ap) == 1 and p.ev.index(fc[0]) < p.ev.index(ap[0]), 'rows', o + ': finish', where, showpath(p))
            continue
        ctx.check(inside == [(i, m) for i in (0, 1, 2) for m in (1, 2) if i < m], 'rows', o + ': every row', where, 'visits %s\n%s' % (inside, showpath(p)))
        be = calls(p, 'build_equiv_list')
        ok = len(be) == 1 and be[0][3][2][0] == 'addr' and be[0][3][1][0] in ('hv', 'phi', 'in') and be[0][3][1][-1] == smap
        if ok:
            a = be[0][3][0]
            ok = isinstance(a, tuple) and a[0] == 'in' and a[1][0] == 'd' and a[1][1] in (('phi', h0, ('i', SV, ix)), ('idx', rowsP[0], ix), ('in', ('i', SV, ix))) or \
                a[0] == 'phi' and a[2][0] == 'd' and ix in flat(a[2]) and SV in flat(a[2])
        ctx.check(ok, 'rows', o + ': ways on', where, 'the ways on are not those of the row\n' + showpath(p))
        if not ok:
            continue
        el = be[0][3][2][1]
        if p.end[1] == h0:
            seen['rows'] += 1
            h1 = hs[1] if len(hs) > 1 else None
            ctx.check(h1 is not None and L.container(h1) == el, 'rows', o + ': all ways on', where, 'not every way on is followed\n' + showpath(p))
            continue
        h1 = p.end[1]
        if L.container(h1) != el:
            ctx.bad('rows', o + ': all ways on', where, 'not every way on is followed\n' + showpath(p))
            continue
        it = L.desc[h1]['phi']
        elem = ('in', ('d', it))
        k1 = [i for i, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == h1][0]
        cls_ = [e for e in p.ev[k1:] if e[0] == 'call' and e[1]['n'] == 'closure']
        FP = ('f', ('d', elem), '_followpos')
        ok = len(cls_) == 1 and (cls_[0][3][0] in (('in', FP), ('phi', h1, FP)) or cls_[0][3][0][0] in ('hv', 'phi') and cls_[0][3][0][-1] == FP)
        ctx.check(ok, 'rows', o + ': followed', where, 'a way on is not followed\n' + showpath(p))
        if not ok:
            continue
        t = cls_[0][4]
        st = [e for e in p.ev[k1:] if e[0] == 'call' and e[1]['n'] == 'set_transitions']
        after = p.ev[p.ev.index(cls_[0]) + 1:]
        dv = next((e[2] for e in after if e[0] == 'write' and e[1] == DFA), None)
        facts_terms = flat(tuple(p.facts.atoms))
        rowterm = {x for x in facts_terms if isinstance(x, tuple) and len(x) == 3 and x[0] in ('idx', 'in', 'hv', 'phi') and is_row(x, ix, A, DFA, n)}
        gr = [x for x in facts_terms if isinstance(x, tuple) and x and x[0] in ('in', 'phi') and x[-1] == ('f', ('d', elem), '_greedy')]
        want_seen = set()
        for tv in (5, N):
            for E in (0, 1, 3, 5, 7):
                for G in (0, 1, 2):
                    env = {t: tv}
                    env.update({x: E for x in rowterm})
                    env.update({x: G for x in gr})
                    if not consistent(p, env) or any(fact(a, env) is None and not neutral(a, ix, sz, pn, el, n, h1) for a in p.facts.atoms if touches(a, t, DFA, elem)):
                        continue
                    want = tv != N and not (E and not E & 2 and G == 0)
                    want_seen.add(want)
                    good = bool(st) == want
                    ctx.check(good, 'rows', o + ': entered', where, 'accept bits %d, repeat kind %d, next row %s: %s\n%s' % (E, G, 'none' if tv == N else tv, 'entered' if st else 'not entered', showpath(p)))
        for e in st:
            env = {('begin', DFA): 0, ix: 4, n: 20}
            a = e[3]
            row = a[3]
            if row[0] == 'addr' and row[1][0] == 'i' and row[1][1] == DFA:
                row = row[1][2]
            rv = value(row, env)
            ok = len(st) == 1 and a[0] == t and a[1] in (elem, ('addr', ('d', elem))) and a[2] == ('addr', DFA) and rv == 5 * (20 + extra) and uncast(a[4]) == ix and a[5][0] == 'addr'
            ctx.check(ok, 'rows', o + ': where', where, 'row offset %s\n%s' % (rv, showpath(p)))
        seen['back'] += 1
    ctx.check(seen['back'] and seen['done'] and seen['rows'], 'rows', o + ': shape', where, str(seen))


def is_row(x, ix, A, DFA, n):
    """first cell of the row the round stands at"""
    if x[0] == 'idx':
        i = x[2]
        base = x[1]
        if not (isinstance(base, tuple) and base[0] in ('hv', 'phi', 'in') and base[-1] == DFA):
            return False
    else:
        P = x[-1]
        if not (isinstance(P, tuple) and P[0] in ('i', 'd')):
            return False
        if P[0] == 'i':
            if P[1] != DFA:
                return False
            i = P[2]
        else:
            i = add(P[1], ('begin', DFA), -1)
    return value(i, {ix: 4, n: 20}) == 5 * (20 + add(A, n, -1)) if isinstance(add(A, n, -1), int) else False


def touches(a, t, DFA, elem):
    fl = flat(a)
    return t in fl or any(isinstance(x, tuple) and x and x[-1] == ('f', ('d', elem), '_greedy') for x in fl)


def neutral(a, ix, sz, pn, el, n, h1):
    return False


# ------------------------------------------------------------------ start states

def outer(ctx, F, f):
    o = '%s::%s' % (gname(f), f['n'])
    where = where_(f)
    keepc = ('build_tree', 'build_dfa', 'check_zero_len', 'check_suppressed', 'create', 'add_states')
    I = interp(ctx, F, f, lambda g: g['n'] not in keepc)
    L = Loops(I)
    rules = ('v', f['params'][0]['n'])
    sm = ('f', rules, '_statemap')
    num = ('size', ('in', sm))
    n = 0
    for p in I.paths:
        if p.end[0] in ('unreach', 'throw'):
            continue
        ad = calls(p, 'add_states')
        okn = lambda v: uncast(v) == num or uncast(v) == ('size', ('m', 'statemap', ('in', rules), ()))
        ok = len(ad) == 1 and okn(ad[0][3][0])
        ctx.check(ok, 'states', o + ': number', where, 'not one table per state\n' + showpath(p))
        hs = [e[1] for e in p.ev if e[0] == 'loop']
        if p.end[0] == 'ret':
            d = L.desc.get(hs[-1]) if hs else None
            ctx.check(d is not None and d['start'] == 0 and okn(d['bound']), 'states', o + ': all', where, 'not every state is built\n' + showpath(p))
            continue
        if p.end[1] != hs[0]:
            continue
        bt, bd = calls(p, 'build_tree'), calls(p, 'build_dfa')
        d = L.desc.get(p.end[1])
        ok = len(bt) == 1 and len(bd) == 1 and d is not None
        if ok:
            ix = d['phi']
            a, b = bt[0][3], bd[0][3]
            # the map and the CR/LF columns of the tree are those of the tables, and fresh for every state
            shared = a[3][0] == 'addr' and a[3][1][0] == 'v' and b[0][0] in ('hv', 'in') and b[0][-1] == a[3][1]
            crnl = [x[1] for x in a[4:6]] == [x[1] for x in b[5:7]] if all(x[0] == 'addr' for x in list(a[4:6]) + list(b[5:7])) else False
            ok = shared and crnl and uncast(a[1]) == ix and uncast(b[4]) == ix and b[1] == bt[0][4] and b[2] == ('addr', ad[0][2]) and a[3][1] not in I.classes[L.block[p.end[1]]]
        ctx.check(ok, 'states', o + ': own rules', where, 'a state is built from something else\n' + showpath(p))
        n += 1
    ctx.check(n > 0, 'states', o + ': loop', where, 'no state is built')
