"""C33: results hand out exactly the token's text, and iterators take one token at a time until the input ends."""
from common import *

FIELDS = ('id', 'user_id', 'first', 'second', 'eoi', 'bol', 'state')
THIS = ('v', 'this')


def where_(f):
    return '%s:%s' % (f['file'].split('include/')[-1], f['l'])


def look(ctx, F, f):
    ctx.analysed(f)
    I = Interp(Lower(F, lambda g: g.get('n') != 'lookup' or '::iterator<' in g['q'], allcalls=True).lower(f), unroll=-1)
    ctx.inlined(F, I.g)
    I.run()
    ctx.count('partitions', len(I.paths))
    return I


def live(I, f):
    ps = [p for p in I.paths if p.end[0] != 'unreach']
    if not ps or any(p.end[0] not in ('ret', 'back') for p in ps):
        raise CheckError('%s: does not simply return' % where_(f))
    return ps


def cname(f):
    q = f['q']
    return short(q[:q.rindex('::')])


def text(v):
    """(from, length) of a string or string_view value, in terms of the iterators it is made of"""
    while v[0] == 'cast' or (v[0] == 'new' and len(v[2]) == 1 and v[2][0][0] in ('new', 'call')):
        v = v[2] if v[0] == 'cast' else v[2][0]
    if v[0] == 'new':
        a = [x for x in v[2] if not (isinstance(x, tuple) and x[0] == 'new' and 'allocator' in x[1])]
        if len(a) == 2:
            if 'string_view' in v[1]:
                return a[0], a[1]
            # (iterator, iterator), or (pointer, number): a difference of positions is a number
            n = add(a[1], a[0], -1)
            if numeric(a[1]):
                return a[0], a[1]
            return a[0], n
    if v[0] == 'empty':
        return None, 0
    return None


def numeric(v):
    """a count, not a position: its position terms cancel out"""
    t, _ = lin(v)
    s = 0
    for term, c in dict(t).items():
        if term[0] == 'in' and term[1][0] == 'f' and term[1][2] in ('first', 'second', 'eoi'):
            s += c
    return s == 0


def run(ctx):
    F = ctx.facts('d_core')
    ctx.rule('text', 'str and view are the text from first to second, substr and subview the same without the given number of characters at its ends, '
             'length their distance', 10)
    ctx.rule('reserved', 'npos and skip are the two largest ids', 2)
    ctx.rule('begin', 'a lexing iterator starts on the first token of the whole input given, on the line start and in the start state given', 2)
    ctx.rule('step', 'stepping an iterator looks up exactly one token with its own machine and results, and it becomes an end iterator exactly when the input has ended', 4)
    ctx.rule('result', '++i gives the iterator itself, i++ a copy from before the step', 4)
    ctx.rule('access', '*, -> and sm() give the results and the machine themselves', 6)
    first, second = ('in', ('f', THIS, 'first')), ('in', ('f', THIS, 'second'))
    for f in sorted((f for f in F.fns.values() if 'body' in f), key=lambda f: (f['q'], f['l'])):
        if f['q'].startswith('lexertl::match_results<'):
            n = f['n']
            if n in ('str', 'substr', 'view', 'subview', 'length'):
                I = look(ctx, F, f)
                base, cnt = first, add(second, first, -1)
                if n in ('substr', 'subview'):
                    a, b = (('in', ('v', q['n'])) for q in f['params'])
                    base, cnt = add(base, a, 1), add(add(cnt, a, -1), b, -1)
                why = []
                for p in live(I, f):
                    if p.end[0] == 'back':
                        raise CheckError('%s: a loop' % where_(f))
                    if n == 'length':
                        if p.ret != cnt:
                            why.append('gives %s' % show(p.ret))
                        continue
                    t = text(p.ret)
                    if t is None:
                        raise CheckError('%s: the text returned is not understood: %s' % (where_(f), show(p.ret)[:200]))
                    if t[0] is None:
                        # nothing: right only where nothing is left
                        at, pol = atom_eq(cnt, 0)
                        if p.facts.query(at) != pol:
                            why.append('gives an empty text')
                    elif t != (base, cnt):
                        why.append('gives %s characters from %s' % (show(t[1]), show(t[0])))
                ctx.check(not why, 'text', '%s::%s' % (cname(f), n), where_(f), '; '.join(why))
            elif n in ('npos', 'skip') and not f['params']:
                I = look(ctx, F, f)
                bits = {'unsigned short': 16, 'unsigned char': 8, 'unsigned int': 32, 'unsigned long': 64}.get(bare(f['rt']))
                if bits is None:
                    raise CheckError('%s: id type %s' % (where_(f), f['rt']))
                want = (1 << bits) - (1 if n == 'npos' else 2)
                got = {p.ret & ((1 << bits) - 1) if isinstance(p.ret, int) else None for p in live(I, f)}
                ctx.check(got == {want}, 'reserved', '%s::%s' % (cname(f), n), where_(f), 'gives %s' % got)
        elif f['q'].startswith('lexertl::iterator<'):
            n = f['n']
            if n in ('operator*', 'operator->', 'sm'):
                I = look(ctx, F, f)
                rets = {p.ret for p in live(I, f)}
                want = {('in', ('f', THIS, '_sm')), ('addr', ('d', ('in', ('f', THIS, '_sm'))))} if n == 'sm' else {('addr', ('f', THIS, '_results'))}
                ctx.check(len(rets) == 1 and rets <= want, 'access', '%s::%s' % (cname(f), n), where_(f), 'gives %s' % [show(r) for r in rets])
            elif n == 'operator++' or (n == 'iterator' and len(f['params']) >= 3):
                stepping(ctx, F, f)
    ctx.assume('lookup gives first equal to eoi exactly when the input has ended (C11)')


def stepping(ctx, F, f):
    """one call of lookup with the machine and results of this iterator; _sm becomes null exactly when first == eoi"""
    I = look(ctx, F, f)
    R, S = ('f', THIS, '_results'), ('f', THIS, '_sm')
    ctor = f['n'] == 'iterator'
    name = '%s::%s%s' % (cname(f), f['n'], '' if ctor else '(int)' if f['params'] else '()')
    steps, begin, result = [], [], []
    for p in live(I, f):
        if p.end[0] == 'back':
            raise CheckError('%s: a loop' % where_(f))
        calls = [(k, e) for k, e in enumerate(p.ev) if e[0] == 'call' and e[1]['n'] == 'lookup']
        if len(calls) != 1:
            steps.append('%d lookups' % len(calls))
            continue
        k, e = calls[0]
        if ctor:
            ps = [q['n'] for q in f['params']]
            msm = {('in', ('v', ps[2])), ('addr', ('v', ps[2]))}
        else:
            msm = {('in', ('d', ('in', S))), ('in', S)}
        if e[3][0] not in msm:
            steps.append('looks up in %s' % show(e[3][0]))
        if e[3][1] != ('addr', R):
            steps.append('looks up into %s' % show(e[3][1]))
            continue
        pre = next((x for x in p.ev[k:] if x[0] == 'pre' and x[1][0] == 'hv' and x[1][2] == R), None)
        if pre is None:
            # nothing was written before the call: the members as they were
            before = {n: None for n in FIELDS}
        else:
            before = {n: I.proj(pre[2], 'f', n) for n in FIELDS}
        hv = next((x[2] for x in p.ev[k:] if x[0] == 'write' and x[1] == R), pre[1] if pre else None)
        if ctor:
            want = {'first': None, 'second': ('in', ('v', ps[0])), 'eoi': ('in', ('v', ps[1])), 'bol': ('in', ('v', ps[3])), 'state': ('in', ('v', ps[4]))}
            last = before if pre else written(p, k, R)
            for n, v in want.items():
                if v is not None and last.get(n) != v:
                    begin.append('%s is %s' % (n, show(last.get(n))))
        elif any(x[0] == 'write' and within(x[1], R) for x in p.ev[:k]):
            steps.append('changes the results before looking up')
        if hv is None:
            raise CheckError('%s: no record of what lookup leaves' % where_(f))
        now = I.val(p, R)
        if any(I.proj(now, 'f', n) != I.proj(hv, 'f', n) for n in FIELDS):
            steps.append('changes the results found')
        a, pol = atom_eq(I.proj(hv, 'f', 'first'), I.proj(hv, 'f', 'eoi'))
        ended = p.facts.query(a)
        smv = I.val(p, S)
        if ended is None:
            steps.append('does not find out whether the input has ended')
        elif (ended == pol) != (smv == 0):
            steps.append('the machine is %s where the input has%s ended' % ('dropped' if smv == 0 else 'kept', '' if ended == pol else ' not'))
        elif smv != 0 and smv not in (({('addr', ('v', ps[2]))}) if ctor else {('in', S)}):
            steps.append('the machine becomes %s' % show(smv))
        if not ctor:
            if f['params']:
                ok = p.ret == ('in', THIS) or all(I.proj(I.proj(p.ret, 'f', '_results'), 'f', n) == ('in', ('f', R, n)) for n in FIELDS) \
                    and I.proj(p.ret, 'f', '_sm') == ('in', S)
                if not ok:
                    result.append('gives %s' % show(p.ret)[:200])
            elif p.ret != ('addr', THIS):
                result.append('gives %s' % show(p.ret)[:200])
    ctx.check(not steps, 'step', name, where_(f), '; '.join(dict.fromkeys(steps)))
    if ctor:
        ctx.check(not begin, 'begin', name, where_(f), '; '.join(dict.fromkeys(begin)))
    else:
        ctx.check(not result, 'result', name, where_(f), '; '.join(dict.fromkeys(result)))


def within(P, R):
    while P[0] in ('f', 'i'):
        if P == R:
            return True
        P = P[1]
    return P == R


def written(p, k, R):
    return {x[1][2]: x[2] for x in p.ev[:k] if x[0] == 'write' and x[1][0] == 'f' and x[1][1] == R}
