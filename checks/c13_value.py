"""C13: clear / reset / swap / == / copy act on the whole value."""
from common import *

SAME = ('v', '$obj')


def ptype(f, i=0):
    return bare(f['params'][i]['t'])


def run(ctx):
    ctx.rule('clear', 'clear() leaves every member with the value a default constructed object gives it (match results: positions at '
             'the end of input)', 60)
    ctx.rule('clear-state', 'clear(state) empties everything recorded per start state for that state and nothing else', 24)
    ctx.rule('reset', 'reset(start, end) leaves every member as constructing from (start, end) does', 30)
    ctx.rule('swap', 'swap leaves every member of each object with the value the other object had', 20)
    ctx.rule('equal', 'operator== is true exactly when every member compares equal', 30)
    ctx.rule('copy', 'copying leaves every member with the value of the source', 60)
    ctx.rule('initialised', 'a default constructed object has no member without a value', 60)
    ctx.assume('library containers clear, copy, compare and swap their whole contents', 'locales and streams are compared as opaque values')
    F = ctx.facts('d_core')
    noval = lambda g: g['n'] not in ('validate',)
    fresh = {}
    for f in wrappers(F, 'vclass', 'fresh'):
        I = interp(ctx, F, f, noval)
        objs = {P for p in I.paths for P in p.store if P[0] in ('v', 'f')}
        root = {r for r in (rootof(P) for P in objs) if r[1].split('#')[0] == 'vobj'}
        if len(root) != 1:
            raise CheckError('default construction of %s not resolved' % f.get('targs'))
        root = root.pop()
        # the type is the template argument
        T = next((v['t'] for v in nodes(f['body']) if v.get('n') == 'vobj' and 't' in v), None)
        if T is None:
            raise CheckError('no type for fresh ' + str(f.get('targs')))
        T = bare(T)
        lv = leaves(F, T, root)
        fin = finals(I, lv, {root: SAME})
        if not fin:
            raise CheckError('default construction of %s never returns' % T)
        fresh[T] = fin
        for (P, t), i in zip(lv, range(len(lv))):
            bad = [s for s in fin if s[i] == ('in', subst(P, {root: SAME})) and 'std::' not in t]
            ctx.check(not bad, 'initialised', short(T) + ':' + lname(P), short(T), 'member %s is not given a value' % lname(P))
    for f in wrappers(F, 'vclass', 'cleared'):
        T = ptype(f)
        if T not in fresh:
            raise CheckError('no default construction to compare with for ' + T)
        root = ('v', f['params'][0]['n'])
        I = interp(ctx, F, f, noval)
        lv = leaves(F, T, root)
        compare(ctx, F, I, f, T, lv, root, fresh[T], 'clear', match='match_results' in T)
    f2 = {}
    for f in wrappers(F, 'vclass', 'fresh2'):
        I = interp(ctx, F, f)
        T = bare(next(v['t'] for v in nodes(f['body']) if v.get('n') == 'vobj' and 't' in v))
        root = {rootof(P) for p in I.paths for P in p.store if rootof(P)[1].split('#')[0] == 'vobj'}.pop()
        f2[T] = finals(I, leaves(F, T, root), {root: SAME})
    for f in wrappers(F, 'vclass', 'reset2'):
        T = ptype(f)
        root = ('v', f['params'][0]['n'])
        I = interp(ctx, F, f)
        compare(ctx, F, I, f, T, leaves(F, T, root), root, f2[T], 'reset')
    for f in wrappers(F, 'vclass', 'swapped'):
        T = ptype(f)
        a, b = ('v', f['params'][0]['n']), ('v', f['params'][1]['n'])
        I = interp(ctx, F, f)
        for P, t in leaves(F, T, a):
            Q = subst(P, {a: b})
            for p in I.paths:
                ok = p.end[0] == 'ret' and I.val(p, P) == ('in', Q) and I.val(p, Q) == ('in', P)
                ctx.check(ok, 'swap', short(T) + ':' + lname(P), short(T) + '::swap', 'member %s is not exchanged\n%s' % (lname(P), showpath(p)))
    for f in wrappers(F, 'vclass', 'copied') + wrappers(F, 'vclass', 'assigned'):
        src = ('v', f['params'][-1]['n'])
        T = ptype(f, -1)
        I = interp(ctx, F, f)
        what = f['n']
        for p in I.paths:
            if p.end[0] != 'ret':
                continue
            roots = {rootof(P) for P in p.store if rootof(P)[1].split('#')[0] == 'vobj'}
            if len(roots) != 1:
                raise CheckError('copy of %s not resolved' % T)
            r = roots.pop()
            for P, t in leaves(F, T, r):
                v = I.val(p, P)
                ctx.check(v == ('in', subst(P, {r: src})), 'copy', '%s:%s:%s' % (short(T), lname(P), what), short(T),
                          'member %s of the copy is %s' % (lname(P), show(v)))
    for f in wrappers(F, 'vclass', 'equal'):
        equality(ctx, F, f)
    for f in wrappers(F, 'vclass', 'dropped'):
        drop(ctx, F, f, fresh)


def ispush(v):
    return isinstance(v, tuple) and v[0] == 'push'


def rootof(P):
    while P[0] in ('f', 'i', 'd'):
        P = P[1]
        if P and P[0] == 'addr':
            P = P[1]
    return P if P and P[0] == 'v' else ('v', '?')


def compare(ctx, F, I, f, T, lv, root, want, rule, match=False):
    got = finals(I, lv, {root: SAME})
    if not got:
        ctx.bad(rule, short(T), f['n'], 'never returns normally')
        return
    for i, (P, t) in enumerate(lv):
        n = lname(P)
        w = {s[i] for s in want}
        if match and n in ('first', 'second', 'eoi'):
            w = {('in', ('f', SAME, 'eoi'))}
        g = {s[i] for s in got}
        ctx.check(g == w, rule, short(T) + ':' + n, short(T), 'member %s is %s, expected %s'
                  % (n, ' / '.join(show(x) for x in g), ' / '.join(show(x) for x in w)))


def equality(ctx, F, f):
    T = ptype(f)
    a, b = ('v', f['params'][0]['n']), ('v', f['params'][1]['n'])
    ops = {bare(g['params'][0]['t']) for g in F.fns.values() if g['n'] == 'operator==' and 'body' in g and len(g['params']) == 2}
    I = interp(ctx, F, f)
    lv = eqleaves(F, T, a, ops)
    opt = 'iterator<' in T and 'match_results<' not in T.split('<')[0]
    atoms = {}
    for P, t in lv:
        atoms[atom_eq(('in', P), ('in', subst(P, {a: b})))[0]] = P
    for p in I.paths:
        if p.end[0] != 'ret':
            ctx.bad('equal', short(T), 'operator==', 'comparison does not return')
            continue
        for want in (True, False):
            fs = Facts_(p.facts)
            v = p.ret
            if isinstance(v, int):
                if bool(v) != want:
                    continue
            elif v[0] == 'cmp':
                if not fs.assume(v[1], v[2] == want):
                    continue
            else:
                ctx.bad('equal', short(T), 'operator==', 'result %s not understood' % show(v))
                continue
            if want:
                for at, P in atoms.items():
                    null = opt and fs.query(atom_eq(('in', ('f', a, '_sm')), 0)[0]) is True
                    ok = fs.query(at) is True or (null and '_results' in lname(P))
                    ctx.check(ok, 'equal', short(T) + ':' + lname(P), short(T) + ' operator==', 'objects may compare equal although %s differs\n%s'
                              % (lname(P), showpath(p)))
            else:
                ctx.check(any(fs.query(at) is False for at in atoms), 'equal', short(T) + ':unequal', short(T) + ' operator==',
                          'objects may compare unequal with every member equal\n' + showpath(p))


def drop(ctx, F, f, fresh):
    T = ptype(f)
    root = ('v', f['params'][0]['n'])
    idx = ('in', ('v', f['params'][1]['n']))
    I = interp(ctx, F, f)
    lv = leaves(F, T, root)
    # members that grow by one element per start state
    per = []
    for i, (P, t) in enumerate(lv):
        if all(ispush(s[i]) for s in fresh[T] if any(ispush(x) for x in s)):
            per.append(P)
    if len(per) < 8:
        raise CheckError('per-state members of %s not recognised (%s)' % (T, [lname(P) for P in per]))
    main = ('f', root, '_regexes')
    size_atom = None
    n = 0
    for p in I.paths:
        if p.end[0] != 'ret':
            ctx.bad('clear-state', short(T), 'clear', 'does not return')
            continue
        wr = [e for e in p.ev if e[0] == 'write' and rootof(e[1]) == root]
        for P, t in lv:
            el = ('i', P, idx)
            v = I.val(p, el)
            touched = [e for e in wr if prefix_of(P, e[1])]
            if not wr:
                # nothing done: only when the index is out of range
                ok = any(at[0] == 'lt' and any(k[0] == 'size' for k, _ in at[1]) for at, pol in p.decisions())
                ctx.check(ok, 'clear-state', short(T) + ':noop', 'clear', 'nothing cleared for a valid state\n' + showpath(p))
            elif P in per:
                n += 1
                z = v in (('empty',), 0)
                ctx.check(z and all(e[1] == el for e in touched), 'clear-state', short(T) + ':' + lname(P), 'clear',
                          '%s of the state is %s afterwards' % (lname(P), show(v)))
            else:
                ctx.check(not touched, 'clear-state', short(T) + ':' + lname(P), 'clear', '%s changed' % lname(P))
    if not n:
        ctx.bad('clear-state', short(T), 'clear', 'no partition clears anything')
