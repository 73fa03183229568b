"""C35: rules that can never match, or match nothing, are refused (unless asked for), and named."""
from common import *
from loops import Loops
from evalx import value, fact, consistent, leaves_of
from c02_casefold import enumerator
from c30_priority import gname, uncast, NPOS
from c34_rows import calls, where_, flat, idtype, known_empty, part

GEN = 'basic_generator'
KEEP = ('build_tree', 'build_dfa', 'check_zero_len', 'check_suppressed', 'regex_from_idx', 'create', 'add_states')


def run(ctx):
    ctx.rule('zero', 'rules are refused exactly when matching nothing was not allowed and an end of a rule is among the first positions', 12)
    ctx.rule('suppressed', 'rules are refused exactly when suppressed rules were not allowed and some rule ends in no row', 12)
    ctx.rule('used', 'a rule counts as used exactly where a row accepts for it', 4)
    ctx.rule('numbers', 'rules are numbered in order over all states, starting at 1', 6)
    ctx.rule('text', 'the text given in the message is that of the rule with this number', 4)
    ctx.rule('asked', 'every state is checked for empty matches, and all rules for suppression, before the machine is changed', 12)
    ctx.rule('nothing', 'a start state without rules is refused', 6)
    ctx.rule('rows', 'a machine is refused exactly when it has more rows or columns than its id type can number', 10)
    F = ctx.facts('d_core')
    for f in F.fns.values():
        if 'body' not in f or f.get('clsname') != GEN:
            continue
        n = f['n']
        if n == 'check_zero_len':
            zero(ctx, F, f)
        elif n == 'check_suppressed':
            suppressed(ctx, F, f)
        elif n == 'regex_from_idx':
            text(ctx, F, f)
        elif n == 'closure_ex':
            used(ctx, F, f)
        elif n == 'build_tree':
            numbers(ctx, F, f)
        elif n == 'build':
            asked(ctx, F, f)
        elif n == 'build_dfa':
            columns(ctx, F, f)
    ctx.assume('texts and regexes are recorded together (C30), rows are made by closure (C30, C34)')


def flagterm(p, R):
    """terms that read the flags of the rules"""
    return {t for t in flat(tuple(p.facts.atoms)) if isinstance(t, tuple) and len(t) > 1 and
            (t == ('in', ('f', R, '_flags')) or t[0] == 'm' and t[1] == 'flags')}


def zero(ctx, F, f):
    o = gname(f)
    where = where_(f)
    R, N = [('v', q['n']) for q in f['params']]
    I = interp(ctx, F, f, lambda g: g['n'] not in KEEP)
    L = Loops(I)
    B = enumerator(F, 'match_zero_len')
    first = ('f', ('d', ('in', N)), '_firstpos')
    hs = [h for h in L.block if L.container(h) in (first, ('d', ('m', '&firstpos', ('in', ('d', ('in', N))), ())))]
    ctx.check(len(hs) == 1, 'zero', o + ': positions', where, 'not every first position is looked at')
    if len(hs) != 1:
        return
    h = hs[0]
    node = ('in', ('d', ('in', ('d', L.desc[h]['phi']))))
    m = lambda n: ('m', n, node, ())
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        went = any(e[0] == 'loop' and e[1] == h for e in p.ev)
        atend = p.end[0] == 'ret' and went
        for fl in (0, B, B - 1 if B > 1 else 2, 0xffff, 0xffff & ~B):
            for end in (0, 1):
                env = {t: fl for t in flagterm(p, R)}
                env[m('end_state')] = end
                if not consistent(p, env):
                    continue
                allowed = bool(fl & B)
                if p.end[0] == 'throw':
                    ok = not allowed and end
                elif p.end[0] == 'ret' and not went:
                    ok = allowed
                elif p.end[0] == 'back':
                    ok = not end or allowed
                else:       # through with all of them
                    ok = finished(L, h, p)
                ctx.check(ok, 'zero', '%s: %s' % (o, p.end[0]), where, 'flags %#x, %s: %s\n%s' % (fl, 'an end' if end else 'no end', p.end[0], showpath(p)))
        if p.end[0] == 'throw':
            cs = calls(p, 'regex_from_idx')
            ok = len(cs) == 1 and add(uncast(cs[0][3][0]), m('unique_id'), -1) == -1 and texts(cs[0][3][1], R)
            ctx.check(ok, 'zero', o + ': named', where, 'another rule is named\n' + showpath(p))


def texts(v, R):
    v = part(None, None, v)
    return v in (('in', ('f', R, '_regex_strings')), ('m', 'regex_strings', ('in', R), ())) or ('&regex_strings' in str(v) and v[0] == 'in')


def finished(L, h, p):
    d = L.desc[h]
    a = atom_eq(d['phi'], d['bound'])
    q = p.facts.query(a[0])
    if q is a[1]:
        return True
    b = atom_lt(d['phi'], d['bound'])
    return p.facts.query(b[0]) is (not b[1])


def suppressed(ctx, F, f):
    o = gname(f)
    where = where_(f)
    R, U, S = [('v', q['n']) for q in f['params']]
    I = interp(ctx, F, f, lambda g: g['n'] not in KEEP)
    L = Loops(I)
    B = enumerator(F, 'allow_suppressed_rules')
    hs = [h for h in L.block if L.desc.get(h)]
    ok = len(hs) == 1 and len(L.block) == 1
    d = L.desc.get(hs[0]) if ok else None
    ctx.check(ok and not d['down'] and (d['start'], d['bound']) in ((0, ('in', U)), (1, add(('in', U), 1))), 'suppressed', o + ': rules', where, 'not every rule is looked at')
    if not ok:
        return
    h = hs[0]
    num = add(d['phi'], 1 if d['start'] == 0 else 0)
    seen = set()
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        went = any(e[0] == 'loop' and e[1] == h for e in p.ev)
        # is the number among the used ones?
        present = None
        for a, pol in p.facts.atoms.items():
            fl = flat(a)
            fs = [t for t in fl if isinstance(t, tuple) and len(t) > 1 and t[0] in ('m', 'pure', 'op') and t[1] in ('find', 'count', 'contains') and (('in', S) in fl or S in fl)]
            for t in fs:
                if not any(uncast(x) == num for x in flat(t)):
                    present = 'other'
                elif t[1] == 'find':
                    present = not pol if a[0] == 'eq' else present
                else:
                    present = (not pol) if a[0] == 'eq' and a[2] == 0 else present
        for fl_ in (0, B, 0xffff & ~B):
            env = {t: fl_ for t in flagterm(p, R)}
            if not consistent(p, env):
                continue
            allowed = bool(fl_ & B)
            if p.end[0] == 'throw':
                ok = not allowed and present is False
            elif p.end[0] == 'back':
                ok = present is True
            elif went:
                ok = finished(L, h, p)
            else:
                ok = allowed
            seen.add(p.end[0])
            ctx.check(ok, 'suppressed', '%s: %s' % (o, p.end[0]), where, 'flags %#x, rule %s: %s\n%s' % (fl_, {True: 'used', False: 'unused', None: 'not looked up', 'other': 'mixed up'}[present], p.end[0], showpath(p)))
        if p.end[0] == 'throw':
            cs = calls(p, 'regex_from_idx')
            ok = len(cs) == 1 and add(uncast(cs[0][3][0]), num, -1) == -1 and texts(cs[0][3][1], R)
            ctx.check(ok, 'suppressed', o + ': named', where, 'another rule is named\n' + showpath(p))
    ctx.check(seen == {'throw', 'back', 'ret'}, 'suppressed', o + ': outcomes', where, str(seen))


def text(ctx, F, f):
    o = gname(f)
    where = where_(f)
    X, V = [('v', q['n']) for q in f['params']]
    I = interp(ctx, F, f, lambda g: True)
    L = Loops(I)
    hs = [h for h in L.block if L.container(h) == V]
    ctx.check(len(hs) == 1 and len(L.block) == 1, 'text', o + ': states', where, 'not every state is looked at')
    if len(hs) != 1:
        return
    h = hs[0]
    elem = ('d', L.desc[h]['phi'])
    n = ('size', ('in', elem))
    c = I.classes[L.block[h]]
    xs = [P for P in c if P[0] == 'v' and all(e[2].get(P) == ('in', X) for p in I.paths for e in p.ev if e[0] == 'loop' and e[1] == h)]
    if len(xs) != 1:
        ctx.bad('text', o + ': number', where, 'the number is not counted down state by state')
        return
    ph = L.phi(h, xs[0])
    for p in I.paths:
        if p.end[0] == 'unreach' or not any(e[0] == 'loop' and e[1] == h for e in p.ev):
            continue
        if p.end[0] == 'ret' and finished(L, h, p):
            continue
        for k in (0, 1, 2):
            for i in (0, 1, 2, 3):
                env = {n: k, ph: i}
                if not consistent(p, env):
                    continue
                if p.end[0] == 'back':
                    ok = i >= k and value(p.ret.get(xs[0], ph), env) == i - k
                else:
                    fl = flat(p.ret)
                    ok = i < k and (('i', elem, ph) in fl or ('in', ('i', elem, ph)) in fl)
                ctx.check(ok, 'text', '%s: %s' % (o, p.end[0]), where, 'number %d of %d: %s\n%s' % (i, k, show(p.ret) if p.end[0] == 'ret' else 'goes on', showpath(p)))


def used(ctx, F, f):
    o = gname(f)
    where = where_(f)
    P = {q['n']: ('v', q['n']) for q in f['params']}
    I = interp(ctx, F, f, lambda g: True)
    B = enumerator(F, 'allow_suppressed_rules')
    node = [q for q in f['params'] if 'basic_node' in q['t'] and '*' in q['t'] and 'vector' not in q['t'] and 'set<' not in q['t']]
    sets = [q for q in f['params'] if q['t'].startswith('std::set<') and 'node' not in q['t']]
    ends = [q for q in f['params'] if q['t'] == 'bool &']
    flags = [q for q in f['params'] if 'unsigned long' in q['t'] and '&' not in q['t']]
    if len(node) != 1 or len(sets) != 1 or len(flags) != 1:
        raise CheckError('parameters of ' + f['q'])
    S, FL = ('v', sets[0]['n']), ('v', flags[0]['n'])
    nd = ('in', ('d', ('in', ('v', node[0]['n']))))
    m = lambda n: ('m', n, nd, ())
    # the flag that says the row accepts already: the one set when an end is met
    for p in I.paths:
        if p.end[0] != 'ret':
            continue
        sets_ = [q['n'] for q in ends if I.val(p, ('v', q['n'])) in (1, True)]
        ins = [e for e in p.ev if e[0] == 'call' and e[1]['n'] in ('insert', 'emplace') and e[2] == S]
        for end in (0, 1):
            for had in (0, 1):
                for fl in (0, B, 0xffff & ~B):
                    env = {m('end_state'): end, ('in', FL): fl, ('in', ('v', 'end_state_')): had}
                    for q in ends:
                        env[('in', ('v', q['n']))] = had
                    if not consistent(p, env):
                        continue
                    want = end and not had
                    if fl & B and not ins:
                        ok = True       # nobody asks
                    else:
                        ok = bool(ins) == bool(want)
                    ok = ok and all(uncast(e[3][-1]) == m('unique_id') for e in ins)
                    ctx.check(ok, 'used', '%s: end %d, accepts already %d' % (o, end, had), where, 'flags %#x: %s\n%s' % (fl, 'noted' if ins else 'not noted', showpath(p)))


def numbers(ctx, F, f):
    o = gname(f)
    where = where_(f)
    U = [q for q in f['params'] if q['t'].endswith('&') and not q['t'].startswith('const') and 'unsigned' in q['t'] and 'std::' not in q['t']]
    U = ('v', U[-1]['n'])
    I = interp(ctx, F, f, lambda g: g['n'] != 'parse' and g.get('clsname') != 'basic_parser')
    L = Loops(I)
    n = 0
    for p in I.paths:
        if p.end[0] in ('unreach', 'throw'):
            continue
        cs = calls(p, 'parse')
        cur = ('in', U)
        hs = [e[1] for e in p.ev if e[0] == 'loop']
        before = [e for e in cs if not hs or p.ev.index(e) < [i for i, x in enumerate(p.ev) if x[0] == 'loop'][0]]
        for e in before:
            ctx.check(step(e[3], cur), 'numbers', o + ': first', where, showpath(p))
            cur = add(cur, 1)
            n += 1
        for x in p.ev:
            if x[0] == 'loop' and U in x[2]:
                ctx.check(same(x[2][U], cur), 'numbers', o + ': next', where, 'the count goes on at %s after %s\n%s' % (show(x[2][U]), show(cur), showpath(p)))
                cur = ('phi', x[1], I.classes[L.block[x[1]]][U])
        for e in cs[len(before):]:
            ctx.check(step(e[3], cur), 'numbers', o + ': next', where, showpath(p))
            cur = add(cur, 1)
            n += 1
        ctx.check(same(I.val(p, U), cur), 'numbers', o + ': count', where, 'left with %s for %s\n%s' % (show(I.val(p, U)), show(cur), showpath(p)))
    ctx.check(n > 0, 'numbers', o, where, 'no rule is parsed')


def same(v, w):
    return add(uncast(v), w, -1) == 0 or uncast(v) == w


def step(args, cur):
    return any(same(a, add(cur, 1)) for a in args)


def asked(ctx, F, f):
    o = gname(f)
    where = where_(f)
    I = interp(ctx, F, f, lambda g: g['n'] not in KEEP)
    L = Loops(I)
    R, M = [('v', q['n']) for q in f['params']]
    n = 0
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        hs = [e[1] for e in p.ev if e[0] == 'loop']
        bt, bd, cz, sp = calls(p, 'build_tree'), calls(p, 'build_dfa'), calls(p, 'check_zero_len'), calls(p, 'check_suppressed')
        if p.end[0] == 'back' and bt:
            ok = len(cz) == 1 and cz[0][3][1] == bt[0][4] and cz[0][3][0] in (('in', R), ('addr', R), R)
            ctx.check(ok, 'asked', o + ': empty matches', where, 'a state is not checked for empty matches\n' + showpath(p))
            ix = L.desc[p.end[1]]['phi'] if L.desc.get(p.end[1]) else None
            ctx.check(known_nonempty(p, ix), 'nothing', o + ': no rules', where, 'a start state without rules is built\n' + showpath(p))
            n += 1
            continue
        if p.end[0] == 'ret':
            ok = len(sp) == 1 and sp[0][3][0] in (('in', R), ('addr', R), R)
            ctx.check(ok, 'asked', o + ': suppressed', where, 'rules are not checked for suppression\n' + showpath(p))
            if ok:
                k = p.ev.index(sp[0])
                early = [e for e in p.ev[:k] if e[0] == 'write' and base(e[1]) == M]
                ctx.check(not early, 'asked', o + ': before', where, 'the machine is changed before\n' + showpath(p))
                lp = L.block[hs[-1]]
                c = I.classes[lp]
                un, st = sp[0][3][1], sp[0][3][2]
                # numbers and used rules are those of all states
                shared = [q for q in I.paths if q.end[0] == 'back' and calls(q, 'build_tree') and calls(q, 'build_dfa')]
                up = {calls(q, 'build_tree')[0][3][-1] for q in shared}
                sets = {calls(q, 'build_dfa')[0][3][-1] for q in shared}
                okn = len(up) == 1 and list(up)[0][0] == 'addr' and (un == ('phi', hs[-1], list(up)[0][1]) or un == ('addr', list(up)[0][1]))
                oks = len(sets) == 1 and list(sets)[0] == st
                ctx.check(okn, 'asked', o + ': number of rules', where, show(un))
                start = [e[2].get(list(up)[0][1]) for q in I.paths for e in q.ev if okn and e[0] == 'loop' and e[1] == hs[-1]]
                ctx.check(bool(start) and all(v == 0 for v in start), 'numbers', o + ': from', where, 'rules are counted from %s' % [show(v) for v in start[:2]])
                ctx.check(oks, 'asked', o + ': used rules', where, show(st))
            continue
        if p.end[0] == 'throw' and not any(e[0] == 'call' and e[1]['n'] == 'build_tree' for e in p.ev):
            ix = [L.desc[h]['phi'] for h in hs if L.desc.get(h)]
            ctx.check(any(known_none(p, x) for x in ix), 'nothing', o + ': refused', where, 'a state with rules is refused\n' + showpath(p))
    rows(ctx, F, f, I)
    ctx.check(n > 0, 'asked', o + ': states', where, 'no state is built')


def rows(ctx, F, f, I, rule='rows'):
    o = gname(f)
    where = where_(f)
    for p in I.paths:
        bd = calls(p, 'build_dfa')
        if not bd or p.end[0] not in ('throw', 'back'):
            continue
        T = idtype_of(f, F)
        top = {'unsigned char': 255, 'unsigned short': 65535}[T]
        rows = {t for t in flat(tuple(p.facts.atoms)) if isinstance(t, tuple) and len(t) == 4 and t[0] == 'op' and t[1] == '/'}
        szs = set()
        for r in (1, 2, top - 1, top, top + 1, top * 2):
            env = {}
            for t in rows:
                env[t[2]] = r * 20
                env[t[3]] = 20
            for t in flat(tuple(p.facts.atoms)):
                if isinstance(t, tuple) and len(t) == 3 and t[0] == 'res' and t[2] == 'npos':
                    env[t] = top
            if not rows or not consistent(p, env):
                continue
            want = r >= top
            szs.add(want)
            ctx.check((p.end[0] == 'throw') == want, rule, '%s: rows, %s' % (o, p.end[0]), where, '%d rows: %s\n%s' % (r, p.end[0], showpath(p)))
        ctx.check(bool(rows), rule, o + ': counted', where, 'rows are not counted\n' + showpath(p))


def idtype_of(f, F):
    for q in f['params']:
        if 'uint8_t' in q['t'] or 'unsigned char,' in q['t']:
            return 'unsigned char'
    return 'unsigned short'


def base(P):
    while P[0] in ('f', 'i', 'd') and isinstance(P[1], tuple) and P[1][0] in ('f', 'i', 'd', 'v'):
        P = P[1]
    return P


def rulesize(p, ix):
    out = []
    for t in flat(tuple(p.facts.atoms)):
        if isinstance(t, tuple) and len(t) == 2 and t[0] == 'size' and ix in flat(t) and 'regexes' in str(t):
            out.append(t)
    return out


def known_nonempty(p, ix):
    return any(p.facts.query(atom_eq(t, 0)[0]) is (not atom_eq(t, 0)[1]) for t in rulesize(p, ix))


def known_none(p, ix):
    return any(p.facts.query(atom_eq(t, 0)[0]) is atom_eq(t, 0)[1] for t in rulesize(p, ix))


def columns(ctx, F, f, rule='rows'):
    o = gname(f)
    where = where_(f)
    top = NPOS[idtype(f)]
    I = interp(ctx, F, f, lambda g: g['n'] not in ('partition_charsets', 'build_set_mapping', 'closure', 'build_equiv_list', 'prune_eol_clashes', 'set_transitions', 'fix_clashes', 'append_dfa') and
               g.get('clsname') != 'basic_string_token')
    n = 0
    for p in I.paths:
        if p.end[0] not in ('throw', 'ret'):
            continue
        cs = calls(p, 'build_set_mapping')
        if not cs:
            continue
        sz = ('size', cs[0][3][0])
        al = [e for e in p.ev if e[0] == 'call' and e[1]['n'] in ('resize', 'assign') and isinstance(e[2], tuple) and e[2][0] == 'i']
        for k in (0, 1, 5, top - 9, top - 8, top - 7, top - 6, top):
            if not consistent(p, {sz: k}):
                continue
            n += 1
            if p.end[0] == 'ret':
                w = value(al[0][3][0], {sz: k}) if al else None
                ctx.check(w is not None and w <= top, rule, o + ': columns kept', where, '%d sets\n%s' % (k, showpath(p)))
            else:
                ctx.check(k + 8 > top, rule, o + ': columns refused', where, '%d sets\n%s' % (k, showpath(p)))
    ctx.check(n > 0, rule, o + ': columns', where, 'not decided')
