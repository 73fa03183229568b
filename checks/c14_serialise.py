"""C14: what save writes, load reads back into the same members."""
from common import *
from loops import Loops, language

SPACE = (9, 10, 11, 12, 13, 32)
CHARS = {'char', 'signed char', 'unsigned char', 'wchar_t', 'char16_t', 'char32_t', 'char8_t'}


def hook(I, p, info, P, av, res, loc):
    """streams: remember the text put into local string streams, log what reaches the target stream"""
    if info['kind'] == 'out':
        v, at = av[0], bare(info.get('at') or '')
        if isinstance(v, tuple) and v[0] == 'begin':
            v = ('text', I.val(p, v[1]))
        elif isinstance(v, tuple) and v[0] == 'addr':
            v = ('text', I.val(p, v[1]))
        elif isinstance(v, tuple) and v[0] in ('m', 'pure', 'str'):
            v = ('text', v)
        if is_local(P):
            I.write(p, P, ('app', I.val(p, P), v, at), loc)
        else:
            p.ev.append(('tok', v, at, loc))
        return 0
    if info['n'] == 'str' and info['kind'] == 'mut' and P is not None and is_local(P):
        I.write(p, P, ('empty',) if av and av[0] in (('empty',), ('str', (), 1)) or (av and isinstance(av[0], tuple) and av[0][0] == 'str' and not av[0][1])
                else (av[0] if av else ('empty',)), loc)
        return 0
    return None


def blank(I, v):
    """an output string stream with nothing in it"""
    if isinstance(v, tuple):
        if v == ('empty',) or (v[0] == 'new' and 'stringstream' in v[1] and not v[2]):
            return True
        if v[0] == 'phi':
            h = v[1]
            vals = [ent[Q] for p in I.paths for e in p.ev if e[0] == 'loop' and e[1] == h for ent in [e[2]] for Q in ent
                    if I.classes[[b for b, n in I.hnum.items() if n == h][0]].get(Q) == v[2]]
            vals += [q.ret[Q] for q in I.paths if q.end == ('back', h) for Q in q.ret
                     if I.classes[[b for b, n in I.hnum.items() if n == h][0]].get(Q) == v[2]]
            return bool(vals) and all(x == v or (x != v and not (x[0] == 'phi') and blank(I, x)) for x in vals if isinstance(x, tuple))
    return False


def number(I, v, at):
    """the number a piece of output denotes -> ('N', term, char?) | ('W',) | None"""
    if isinstance(v, int):
        if at in CHARS:
            return ('W',) if v in SPACE else None
        return ('N', v, False)
    if v[0] == 'text':
        t = v[1]
        if isinstance(t, tuple) and t[0] == 'str':
            return ('W',) if t[1] and all(c in SPACE for c in t[1]) else (() if not t[1] else None)
        if isinstance(t, tuple) and t[0] == 'm' and t[1] == 'str' and isinstance(t[2], tuple) and t[2][0] == 'app' and blank(I, t[2][1]):
            return number(I, t[2][2], t[2][3])
        if isinstance(t, tuple) and t[0] == 'pure' and t[1] == 'to_string':
            return number(I, t[2][0], '')
        return None
    return ('N', v, at in CHARS)


def run(ctx):
    ctx.rule('written', 'every member of the machine is written, each value as a number followed by white space', 25)
    ctx.rule('read', 'load reads as many values as save writes, in the same order, each as a number wide enough for every value', 25)
    ctx.rule('restored', 'the value read in the place of a member is stored in that member, unchanged', 25)
    ctx.rule('guard', 'load compares the sizes of the character and id types with those written and throws when they differ', 10)
    ctx.assume('formatted numeric output and input of the standard streams round-trip', 'the stream does not fail')
    F = ctx.facts('d_core')
    saves = [f for f in F.fns.values() if f['q'] == 'lexertl::save' and 'body' in f]
    loads = [f for f in F.fns.values() if f['q'] == 'lexertl::load' and 'body' in f]
    n = 0
    for s in saves:
        for l in loads:
            if bare(l['params'][1]['t']) == bare(s['params'][0]['t']) and bare(l['params'][0]['t']) == bare(s['params'][1]['t']):
                pair(ctx, F, s, l)
                n += 1
    if n < 5:
        raise CheckError('only %d save/load pairs instantiated' % n)


def pair(ctx, F, s, l):
    T = bare(s['params'][0]['t'])
    t = short(T) + ',' + short(s['params'][1]['t'])
    S = interp(ctx, F, s, on_call=hook)
    L = interp(ctx, F, l)
    SL, LL = Loops(S), Loops(L)
    bad = []

    def stok(p, e):
        if e[0] == 'tok':
            r = number(S, e[1], e[2])
            if r is None:
                bad.append((e[1], e[3]))
            return r or None
    main, body = language(S, stok)
    for v, loc in bad:
        ctx.bad('written', t + ':form', loc, 'output %s is neither a number nor white space' % show(v))
    if bad:
        return

    def ltok(p, e):
        if e[0] == 'call' and e[1]['kind'] == 'in':
            return ('R', e[4][1], bare(e[1].get('at') or ''), e[5])
    lmain, lbody = language(L, ltok)
    src, dst = ('v', s['params'][0]['n']), ('v', l['params'][1]['n'])

    def strip(alts, where):
        """one token sequence without the white space; every number must be followed by some"""
        out = set()
        for a in alts:
            seq = []
            for k, x in enumerate(a):
                if x[0] == 'N':
                    nx = a[k + 1] if k + 1 < len(a) else None
                    ctx.check(nx is not None and nx[0] == 'W', 'written', '%s:%s:separated' % (t, where), s['n'],
                              'nothing separates %s from the next value' % show(x[1]))
                    ctx.check(not x[2], 'written', '%s:%s:number' % (t, show(x[1])), s['n'], '%s is written as a character' % show(x[1]))
                    seq.append(x)
                elif x[0] == 'L':
                    seq.append(x)
            out.add(tuple(seq))
        if len(out) != 1:
            ctx.bad('written', '%s:%s:form' % (t, where), s['n'], 'the values written vary: %r' % (out,))
            return None
        return out.pop()

    ms = strip(main, 'top')
    if ms is None or len(lmain) != 1:
        ctx.check(len(lmain) == 1, 'read', t + ':top', l['n'], 'load has %d different read sequences' % len(lmain))
        return
    (mr, lp), = lmain.items()
    reads = {}      # read number -> term written there
    fields = {lname(P): P for P, ty in leaves(F, T, src)}
    got = {}

    def walk_(sq, rq, elem, where):
        sq = list(sq)
        rq = list(rq)
        for k in range(max(len(sq), len(rq))):
            a = sq[k] if k < len(sq) else None
            b = rq[k] if k < len(rq) else None
            inst = '%s:%s:%d' % (t, where, k)
            if a is None or b is None or (a[0] == 'L') != (b[0] == 'L'):
                ctx.bad('read', inst, l['n'], 'save writes %s where load reads %s' % (a and (show(a[1]) if a[0] == 'N' else 'a sequence'), b))
                return False
            if a[0] == 'N':
                ctx.check(b[2] not in CHARS and b[2] in INTW and INTW[b[2]][1] >= INTW['unsigned short'][1], 'read', inst, b[3], 'value %s read as %s' % (show(a[1]), b[2]))
                reads[b[1]] = a[1]
            else:
                if not loop(a[1], b[1], rq[k - 1] if k else None, elem, where):
                    return False
        return True

    def loop(h, g, last, elem, where):
        C = SL.container(h)
        d = LL.desc.get(g)
        nm = cname(C, elem)
        inst = '%s:%s' % (t, nm)
        if C is None:
            ctx.bad('written', inst, s['n'], 'loop does not write every element of a member once')
            return False
        if d is None or last is None or last[0] != 'R':
            ctx.bad('read', inst, l['n'], 'load does not read the elements of %s in a counted loop' % nm)
            return False
        cnt = reads.get(last[1])
        n = add(d['bound'], d['start'], -1)
        ok = n[0] == 'hv' and n[1] == last[1] if isinstance(n, tuple) else False
        if isinstance(n, tuple) and n[0] == 'size':
            # filled in place after resizing
            c = n[1]
            ok = c[0] == 'mut' and c[1] == 'resize' and c[3] and isinstance(c[3][0], tuple) and c[3][0][0] == 'hv' and c[3][0][1] == last[1]
        ctx.check(ok and cnt == ('size', ('in', C)), 'read', inst + ':count', l['n'], '%s elements are written but %s are read' % (show(cnt) if cnt is not None else '?', show(n)))
        sb, lb = body.get(h, {}), lbody.get(g, {})
        sq = strip(sb, nm)
        if sq is None or len(lb) != 1:
            ctx.bad('read', inst + ':form', l['n'], 'elements are not read uniformly')
            return False
        (rq, q), = lb.items()
        if not walk_(sq, rq, dict(elem, **{repr(SL.desc[h]['phi']): nm}), nm):
            return False
        # what a round adds
        start = [k for k, e in enumerate(q.ev) if e[0] == 'loop' and e[1] == g][-1]
        ev = q.ev[start + 1:]
        inner = [x for x in rq if x[0] == 'L']
        adds = [e for e in ev if e[0] == 'call' and e[1]['kind'] == 'mut' and e[2] is not None and e[1]['n'] in ('push_back', 'emplace_back')]
        other = [e for e in ev if e[0] == 'write' and rootof_(e[1]) == dst and not any(x[2] == e[1] for x in adds)
                 and not (isinstance(e[2], tuple) and e[2] in (('empty',), ('new', '', ())))]
        res = {}
        if inner:
            # one new element whose contents the nested loop appends
            ok = len(adds) == 1 and not other
            D = adds[0][2] if adds else None
            got[g] = ('seq', D, inner[0][1], adds[0][6] if adds else None)
            ctx.check(ok, 'restored', inst + ':append', l['n'], 'a round of the loop does not append exactly one row: ' + '; '.join(show(e[2]) for e in adds))
            ig = got.get(inner[0][1])
            if ok and ig:
                want = ('i', D, L.size(adds[0][6]))
                pushed = adds[0][3][0] if adds[0][3] else None
                ok2 = ig[1] == want or (isinstance(pushed, tuple) and pushed[0] == 'phi' and pushed[1] == inner[0][1]) \
                    or (isinstance(pushed, tuple) and pushed[0] == 'addr' and pushed[1] == ig[1])
                ctx.check(ok2, 'restored', inst + ':rows', l['n'], 'elements go to %s, not to the new row %s' % (show(ig[1]), show(want)))
        else:
            if len(adds) == 1 and not other:
                D, v = adds[0][2], adds[0][3][0] if adds[0][3] else None
            elif not adds and len(other) == 1 and place_of(other[0][1], d):
                D, v = place_of(other[0][1], d), other[0][2]
            else:
                ctx.bad('restored', inst + ':append', l['n'], 'a round of the loop stores %d values' % (len(adds) + len(other)))
                return False
            want = [x for x in sq if x[0] == 'N']
            rd = plain(v)
            ok = rd is not None and len(want) == 1 and SL.element(h, reads.get(rd))
            ctx.check(ok and lossless(v, C), 'restored', inst + ':value', l['n'], 'the element stored is %s' % show(v))
            got[g] = ('seq', D, None, adds[0][6] if adds else None)
        return True

    def lossless(v, C):
        # a cast must not be narrower than the ids of the machine
        idt = elem_type(F, T)
        while isinstance(v, tuple) and v[0] == 'cast':
            if v[1] in INTW and INTW[v[1]][1] < INTW[idt][1]:
                return False
            v = v[2]
        return True

    def cname(C, elem):
        if C is None:
            return '?'
        if C[0] == 'd' and repr(C[1]) in elem:
            return elem[repr(C[1])] + '[]'
        if C[0] == 'i':
            return cname(C[1], elem) + '[]'
        return lname(C)

    if not walk_(ms, mr, {}, 'top'):
        return
    # members
    idt = elem_type(F, T)
    for nme, P in fields.items():
        Q = subst(P, {src: dst})
        ty = dict(leaves(F, T, src))[P]
        ctx.check(any(contains(v, lambda x: x == ('in', P)) for v in reads.values()), 'written', '%s:%s' % (t, nme), s['n'], 'member %s is not written' % nme)
        if 'vector' in ty:
            seqs = [x for x in got.values() if x[1] == Q]
            ent = [e[2].get(Q) for e in lp.ev if e[0] == 'loop' and Q in e[2]]
            final = L.val(lp, Q)
            ok = len(seqs) == 1 and (L.size(ent[0]) == 0 if ent else False) and isinstance(final, tuple) and final[0] == 'phi'
            inplace = len(seqs) == 1 and seqs[0][3] is None
            ctx.check(ok or inplace, 'restored', '%s:%s' % (t, nme), l['n'], 'member %s ends as %s' % (nme, show(final)))
            # the loop filling it is the one paired with the member's own loop
        else:
            v = L.val(lp, Q)
            rd = plain(v)
            ctx.check(rd is not None and reads.get(rd) == ('in', P) and lossless(v, None), 'restored', '%s:%s' % (t, nme), l['n'],
                      'member %s ends as %s' % (nme, show(reads.get(rd, v)) if rd is not None else show(v)))
    # which container loop fills which member
    order_s = [cname(SL.container(x[1]), {}) for x in ms if x[0] == 'L']
    order_l = [lname(got[x[1]][1]) if x[1] in got else '?' for x in mr if x[0] == 'L']
    ctx.check(order_s == order_l, 'restored', t + ':order', l['n'], 'written %s, restored %s' % (order_s, order_l))
    # guards: written constants are compared
    consts = [(rd, v) for rd, v in reads.items() if isinstance(v, int)]
    fs = lp.facts
    sizes = [v for x in ms if x[0] == 'N' and isinstance(x[1], int) for v in [x[1]]]
    ctx.check(len(sizes) >= 3, 'written', t + ':header', s['n'], 'header of %d constants' % len(sizes))
    for rd, v in sorted(consts)[1:]:
        hv = [k for a, pol in lp.decisions() for k, _ in a[1] if a[0] == 'eq' and pol and isinstance(k, tuple) and k[0] == 'hv' and k[1] == rd and a[2] == -v]
        ctx.check(bool(hv), 'guard', '%s:%d' % (t, rd), l['n'], 'load goes on although the size written (%d) was not read' % v)


def elem_type(F, T):
    r = F.recbyt[T]
    i = F.recbyt[bare(r['fields'][0]['t'])]
    return bare(next(f['t'] for f in i['fields'] if f['n'] == '_eoi'))


def plain(v):
    while isinstance(v, tuple) and v[0] == 'cast':
        v = v[2]
    return v[1] if isinstance(v, tuple) and v[0] == 'hv' else None


def place_of(P, d):
    if P[0] == 'i' and P[2] == d['phi']:
        return P[1]
    if P[0] == 'd' and P[1] == d['phi'] and isinstance(d['start'], tuple) and d['start'][0] == 'begin':
        return d['start'][1]
    return None


def rootof_(P):
    while P[0] in ('f', 'i', 'd'):
        P = P[1]
        if P and P[0] in ('addr', 'begin', 'phi'):
            return P
    return P
