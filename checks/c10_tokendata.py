"""C10: everything lookup reports about a token comes from one accepting row, taken at one position."""
from lookup_model import *


def run(ctx):
    ctx.rule('entry-group', 'before scanning, the remembered token data are exactly those of the start row', 12)
    ctx.rule('back-group', 'each scanning step either leaves the whole remembered group unchanged (row not accepting) or replaces the '
             'whole group from the new row at the new position (row accepting)', 12)
    ctx.rule('commit-group', 'a reported token takes id, user id, end, start state and line-start flag from one group', 12)
    ctx.rule('stack', 'the state stack is popped exactly when the accepting row has the pop bit (underflow is an error), pushed exactly '
             'when it names a state to push, and the start state follows', 3)
    ctx.rule('no-match', 'with no accepting row the result is npos/npos, one character skipped, nothing else changed', 12)
    ctx.rule('end', 'the end-of-input result is the end id with npos user id', 12)
    ctx.rule('discard', 'a token is dropped exactly when its id is the skip id (scanning restarts after it) or the end id (scanning '
             'continues the same token), and a returned token starts where its scan started', 12)
    ctx.assume('transition-table rows do not change during a call (C12)', 'input characters do not change during a call')
    for m in models(ctx):
        one(ctx, m)


def isacc(v, h):
    if isinstance(v, tuple) and v[0] == 'cmp' and v[1][0] == 'eq' and v[2] is False and v[1][2] == 0 and len(v[1][1]) == 1:
        v = v[1][1][0][0]
    return isinstance(v, tuple) and v[0] == 'phi' and v[1] == h


def groups(m):
    """roles -> place, from the token-reporting partitions"""
    return None


def one(ctx, m):
    I, res, t, h = m.I, m.res, m.t, m.h
    SI = m.SI
    fld = lambda n: ('f', res, n)
    roles = {}

    def role(name, v):
        if isinstance(v, tuple) and v[0] == 'cmp' and v[1][0] == 'eq' and v[2] is False and v[1][2] == 0 and len(v[1][1]) == 1:
            v = v[1][1][0][0]   # boolean copy
        if isinstance(v, tuple) and v[0] == 'phi' and v[1] == h:
            roles.setdefault(name, set()).add(v)
            return v
        return None

    matches, nomatch = [], []
    for p in m.commits:
        idv = I.val(p, fld('id')) if p.end[0] == 'ret' else None
        if p.end[0] == 'ret':
            (nomatch if idv == m.npos else matches).append(p)
        else:
            matches.append(p)
    if not matches or not nomatch:
        raise CheckError('lookup(%s): no reporting partition / no error partition' % t)

    # ---- end result
    n = 0
    for p in I.paths:
        if p.end[0] == 'ret' and h not in p.ents:
            n += 1
            eoiid = I.val(p, fld('id')) == ('in', ('f', m.internals, '_eoi'))
            ctx.check(eoiid and I.val(p, fld('user_id')) == m.npos, 'end', t, m.f['n'], showpath(p))
            # the token reported as end starts and stops at the end (unless it continues an earlier piece)
    if not n:
        raise CheckError('lookup(%s): no end-of-input partition' % t)

    # ---- no match
    for p in nomatch:
        sec = I.val(p, fld('second'))
        pos = I.resolve(p, add(sec, 1, -1) if m.has('advance') else sec)
        fst = I.resolve(p, I.val(p, fld('first')))
        bol = I.resolve(p, I.val(p, fld('bol')))
        ent = p.ents[h][m.CP]
        ok = (I.val(p, fld('user_id')) == m.npos and pos == ent and fst == pos and
              bol == ('cmp',) + atom_eq(m.char(pos), 10))
        start = p.ents[min(p.ents)]
        ok = ok and I.val(p, fld('state')) == entry_value(I, p, fld('state'))
        if m.recursive:
            ok = ok and I.val(p, fld('stack')) == entry_value(I, p, fld('stack'))
        ctx.check(ok, 'no-match', t, m.f['n'], showpath(p) if not ok else '')

    # ---- discarded tokens and the start of a token
    h0 = min(h_ for p in m.commits for h_ in p.ents)
    for p in matches:
        idt = decided_id(m, p)
        if p.end[0] == 'ret':
            idv = I.val(p, fld('id'))
            sk, eo = decided(p, idv, m.skip), decided(p, idv, ('in', ('f', m.internals, '_eoi')))
            ok = sk is False and eo is False
            ctx.check(ok, 'discard', t, m.f['n'], 'returned without excluding the discarded ids\n' + showpath(p) if not ok else '')
            start = I.val(p, fld('first'))
            ctx.check(start in (('phi', h0, I.classes[[x for x, k in I.hnum.items() if k == h0][0]].get(fld('second'))), ('in', fld('second'))),
                      'discard', t + ':first', m.f['n'], showpath(p))
        else:
            ctx.check(idt is not None, 'discard', t + ':again', m.f['n'], 'token dropped for another reason than its id\n' + showpath(p) if idt is None else '')
    # ---- reported tokens
    direct = {}
    for p in matches:
        g = {}
        if p.end[0] == 'ret':
            g['id'], g['uid'] = I.val(p, fld('id')), I.val(p, fld('user_id'))
        look = p.ret if p.end[0] == 'back' else None
        get = lambda P: I.val(p, P)
        g['end'] = get(fld('second'))
        if m.has('bol'):
            g['bol'] = get(fld('bol'))
        popped = pushed = False
        if m.has('multi_state'):
            g['next'] = get(fld('state'))
        if m.recursive:
            s0 = entry_value(I, p, fld('stack'))
            s1 = get(fld('stack'))
            if s1 == s0:
                pass
            elif isinstance(s1, tuple) and s1[0] == 'mut' and s1[1] == 'pop' and s1[2] == s0:
                popped = True
                top = I.proj(s0, 'i', add(I.size(s0), 1, -1))
                ok = g['next'] == I.proj(top, 'f', 'first') and m.zero(p, I.size(s0)) is False
                ctx.check(ok, 'stack', t + ':pop', m.f['n'], showpath(p) if not ok else '')
                del g['next']
            elif isinstance(s1, tuple) and s1[0] == 'push' and s1[1] == s0:
                pushed = True
                x = s1[2]
                if isinstance(x, tuple) and x[0] == 'new' and len(x[2]) == 2:
                    g['push'], g['pushid'] = x[2]
                else:
                    ctx.bad('stack', t + ':push', m.f['n'], 'pushed value not a pair\n' + showpath(p))
            else:
                ctx.bad('stack', t, m.f['n'], 'stack changed by more than one push or pop\n' + showpath(p))
        accs = {k: isacc(v, h) for k, v in g.items()}
        if all(accs.values()) and not (g['end'] == m.phi(m.CP)):
            for k, v in g.items():
                role(k, v)
            row = None
        else:
            # direct from one row, examined after the scan
            rows = {add(cell(g[k]), SI[c], -1) for k, c in (('id', 'id'), ('uid', 'user_id'), ('next', 'next_dfa'), ('push', 'push_dfa'), ('pushid', 'id'))
                    if k in g and cell(g[k]) is not None}
            bad = [k for k in ('id', 'uid', 'next', 'push', 'pushid') if k in g and cell(g[k]) is None]
            # remembered on the partition although the group was refreshed
            if bad or len(rows) > 1:
                ctx.bad('commit-group', t, m.f['n'], 'token data mix two groups: ' + ', '.join('%s=%s' % (k, show(v)) for k, v in g.items()) + '\n' + showpath(p))
                continue
            row = rows.pop() if rows else None
            if row is None:
                # nothing but end/bol to go on (a discarded token): the row is the last accepting one on the partition
                row = last_accepting(m, p)
            ok = row is not None and m.accepting(p, row) is True and g['end'] == m.phi(m.CP)
            if 'bol' in g:
                ok = ok and isacc(g['bol'], h)
            ctx.check(ok, 'commit-group', t, m.f['n'], 'row examined after the scan is not reported consistently: '
                      + ', '.join('%s=%s' % (k, show(v)) for k, v in g.items()) + '\n' + showpath(p) if not ok else '')
        la = last_accepting(m, p)
        ok = la is None or la == row
        ctx.check(ok, 'commit-group', t, m.f['n'], 'an accepting row seen after the scan is not the one reported\n' + showpath(p) if not ok else '')
        # an accepting row must have been seen (the remembered flag)
        ctx.check(accepted(m, p, row), 'commit-group', t + ':accepted', m.f['n'], 'token reported without an accepting row\n' + showpath(p))
        if m.recursive:
            # which of pop/push/neither is chosen by the same group
            pv = roles.get('pop')
            popc, pushc = chosen(m, p, row, roles)
            ok = popc is not None and popc == popped and (popped or (pushc is not None and pushc == pushed))
            ctx.check(ok, 'stack', t + ':decision', m.f['n'], 'pop=%s push=%s but the row says pop=%s push=%s\n%s'
                      % (popped, pushed, popc, pushc, showpath(p)) if not ok else '')
    if m.recursive:
        thr = [p for p in I.paths if p.end[0] == 'throw']
        for p in thr:
            s0 = entry_value(I, p, fld('stack'))
            row = last_accepting(m, p)
            popc, _ = chosen(m, p, row, roles)
            ok = popc is True and m.zero(p, I.size(s0)) is True
            ctx.check(ok, 'stack', t + ':underflow', p.end[3], showpath(p) if not ok else '')
        if not thr:
            ctx.bad('stack', t + ':underflow', m.f['n'], 'popping an empty stack is not reported')

    if 'pushid' in roles:
        roles.setdefault('id', set()).update(roles.pop('pushid'))
    multi = {k: v for k, v in roles.items() if len(v) != 1}
    if multi:
        ctx.bad('commit-group', t, m.f['n'], 'role carried by several places: %s' % {k: [show(x) for x in v] for k, v in multi.items()})
        return
    R = {k: list(v)[0][2] for k, v in roles.items()}
    need = ['id', 'uid', 'end'] + (['bol'] if m.has('bol') else []) + (['next'] if m.has('multi_state') else []) + (['pop', 'push'] if m.recursive else [])
    for k in need:
        if k not in R:
            ctx.bad('commit-group', t, m.f['n'], 'no remembered value for ' + k)
            return
    # ---- at loop entry the group is that of the start row at the start position
    ents = {}
    for p in I.paths:
        if h in p.ents:
            ents[repr(sorted(p.ents[h].items(), key=repr))] = p
    for p in ents.values():
        e = p.ents[h]
        row = None
        c = cell(e[R['id']])
        row = add(c, SI['id'], -1) if c is not None else None
        st = ('in', ('f', m.internals, '_dfa_alphabet'))
        ok = row is not None and e[R['uid']] == at(row, SI['user_id']) and e[R['end']] == e[m.CP]
        if ok and 'next' in R:
            ok = e[R['next']] == I_state(I, p, res)
        if ok and 'pop' in R:
            ok = popexpr(m, e[R['pop']], row) and e[R['push']] == at(row, SI['push_dfa'])
        fl = flagplace(m)
        ok = ok and fl is not None and nzexpr(e[fl], at(row, SI['end_state']))
        ctx.check(ok, 'entry-group', t, m.f['n'], ', '.join('%s=%s' % (k, show(e[v])) for k, v in R.items()) if not ok else '')
    # ---- each step
    fl = flagplace(m)
    for p in m.backs:
        n = p.ret
        row = n[m.PP]
        acc = m.accepting(p, row)
        unchanged = all(n[P] == m.phi(P) for P in R.values()) and same_flag(n[fl], m.phi(fl))
        if acc is False:
            ctx.check(unchanged, 'back-group', t, m.f['n'], 'group changed at a row that does not accept\n' + showpath(p) if not unchanged else '')
        elif acc is True:
            ok = (n[R['id']] == at(row, SI['id']) and n[R['uid']] == at(row, SI['user_id']) and n[R['end']] == n[m.CP] and
                  isinstance(n[fl], int) and n[fl] != 0)
            if 'next' in R:
                ok = ok and n[R['next']] == at(row, SI['next_dfa'])
            if 'bol' in R:
                ok = ok and runbol(m, R, n) is not None
            if 'pop' in R:
                ok = ok and popexpr(m, n[R['pop']], row) and n[R['push']] == at(row, SI['push_dfa'])
            ctx.check(ok, 'back-group', t, m.f['n'], 'group not wholly taken from the accepting row: ' +
                      ', '.join('%s=%s' % (k, show(n[v])) for k, v in R.items()) + '\n' + showpath(p) if not ok else '')
        else:
            ctx.bad('back-group', t, m.f['n'], 'acceptance of the new row is not examined\n' + showpath(p))


def runbol(m, R, n):
    """a carried place whose next value equals the remembered line-start flag"""
    for P in m.running_bol():
        if n[P] == n[R['bol']]:
            return P
    return None


def decided(p, a, b):
    r = atom_eq(a, b)
    if isinstance(r, bool):
        return r
    q = p.facts.query(r[0])
    return None if q is None else q == r[1]


def decided_id(m, p):
    """the reason a scan is resumed: which id test succeeded"""
    eo = ('in', ('f', m.internals, '_eoi'))
    on = False
    for e in p.ev:
        if e[0] == 'loop' and e[1] == m.h:
            on = True
        if on and e[0] == 'dec' and e[2] and e[1][0] == 'eq':
            ts = [x for x, _ in e[1][1]]
            if e[1][2] == -m.skip and len(ts) == 1 and p.end[1] != p_inner(m):
                return 'skip'
            if eo in ts and len(ts) == 2:
                return 'again'
    return None


def p_inner(m):
    return m.h


def I_state(I, p, res):
    return entry_value(I, p, ('f', res, 'state'))


def flagplace(m):
    """the carried flag meaning `some row accepted`: guard of the token data"""
    gs = {}
    for fb, fx, X in m.I.guards.get(m.h, ()):
        gs.setdefault(fb, set()).add(fx)
    best = [fb[2] for fb, xs in gs.items() if m.phi(m.CP) not in xs]
    used = [P for P in best if any(m.I.assume and p.facts.query(('eq', ((m.phi(P), 1),), 0)) is not None for p in m.commits)]
    return used[0] if used else None


def same_flag(v, phi):
    return v == phi or v == ('cmp', ('eq', ((phi, 1),), 0), False)


def nzexpr(v, x):
    return v == ('cmp', ('eq', ((x, 1),), 0), False) or v == x


def popexpr(m, v, row):
    x = at(row, m.SI['end_state'])
    b = m.SB['pop_dfa']
    forms = [('op', '&') + tuple(sorted((x, b), key=repr)), ('op', '&', b, x), ('op', '&', x, b)]
    for f in forms:
        if v == f or v == ('cmp', ('eq', ((f, 1),), 0), False) or v == ('cmp', ('eq', ((f, 1),), -b), True):
            return True
    return False


def last_accepting(m, p):
    """the last row found accepting after the scanning loop was entered"""
    r, on = None, False
    for e in p.ev:
        if e[0] == 'loop' and e[1] == m.h:
            on = True
        elif e[0] == 'dec' and on and e[1][0] == 'eq' and e[1][2] == 0 and e[2] is False and len(e[1][1]) == 1:
            x = e[1][1][0][0]
            if isinstance(x, tuple) and x[0] == 'op' and x[1] == '&' and m.SB['end_state'] in x[2:]:
                x = [y for y in x[2:] if y != m.SB['end_state']][0]
            c = cell(x)
            if c is not None and c not in m.seeds and not any(k in m.seeds for k in lin(c)[0]):
                # a row's first cell: the row pointer itself
                if is_row_start(m, c):
                    r = c
    return r


def is_row_start(m, c):
    """c = begin(dfa[s]) + k*alphabet  or the carried row pointer"""
    if c == m.phi(m.PP):
        return True
    t, k = lin(c)
    b = [x for x in t if x[0] == 'begin']
    if len(b) != 1 or k:
        return False
    rest = [x for x in t if x[0] != 'begin']
    return len(rest) == 1 and t[rest[0]] == 1 and rest[0][0] == 'op' and rest[0][1] == '*'


def accepted(m, p, row):
    if row is not None:
        return m.accepting(p, row) is True
    fl = flagplace(m)
    return fl is not None and m.zero(p, m.phi(fl)) is False


def chosen(m, p, row, roles):
    """what the reported group says about pop / push on this partition"""
    if row is not None:
        x = at(row, m.SI['end_state'])
        b = m.SB['pop_dfa']
        pop = None
        for f in (('op', '&') + tuple(sorted((x, b), key=repr)), ('op', '&', b, x)):
            z = m.zero(p, f)
            if z is not None:
                pop = not z
        push = at(row, m.SI['push_dfa'])
    else:
        pop = None
        cand = None
        # remembered pop flag: a carried place whose value is always that row's pop bit
        for P in m.cls:
            nx = [q for q in m.backs if q.ret[P] != m.phi(P)]
            if nx and all(popexpr(m, q.ret[P], q.ret[m.PP]) for q in nx):
                cand = m.phi(P)
        if cand is not None:
            roles.setdefault('pop', set()).add(cand)
            z = m.zero(p, cand)
            pop = None if z is None else not z
        push = None
        for P in m.cls:
            nx = [q for q in m.backs if q.ret[P] != m.phi(P) and not same_flag(q.ret[P], m.phi(P))]
            if nx and all(q.ret[P] == at(q.ret[m.PP], m.SI['push_dfa']) for q in nx):
                push = m.phi(P)
                roles.setdefault('push', set()).add(push)
    pushed = None
    if push is not None:
        r = atom_eq(push, m.npos)
        q = p.facts.query(r[0]) if not isinstance(r, bool) else r
        pushed = None if q is None else (q != r[1] if not isinstance(r, bool) else not r)
    return pop, pushed
