"""C26: the features a machine advertises are those its rules use."""
from record_model import *
from evalx import value, consistent, leaves_of
from c30_priority import nposof

BOL, EOL, SKIP, AGAIN, MULTI, REC = 1, 2, 4, 8, 16, 32
T_BOL, T_EOL = 10, 11
GEN = 'lexertl::basic_generator<'


def run(ctx):
    ctx.rule('recorded', 'a rule adds exactly the features it uses (line start, line end, skip, again, stack) to every state it is added to, keeping those there', 60)
    ctx.rule('anchor-first', 'the tokeniser makes a line-start token only of the first and a line-end token only of the last character', 4)
    ctx.rule('reverse', 'reversing rules exchanges the line-start and line-end features of every state and keeps the others', 5)
    ctx.rule('combined', 'a machine has the features of all its start states, and multi_state exactly when there is more than one', 10)
    ctx.rule('handed-on', 'building combines the features recorded in the rules', 5)
    ctx.rule('line-start', 'the trees of a start state are given a line-start alternative exactly when a rule of that state uses line starts', 5)
    F = ctx.facts('d_core')
    for f in pushes(F):
        push(ctx, F, f)
    fns = [f for f in F.fns.values() if 'body' in f]
    for f in fns:
        cls = f.get('cls', '')
        if f['n'] == 'next' and cls.startswith('lexertl::detail::basic_re_tokeniser<'):
            anchors(ctx, F, f)
        elif f['n'] == 'reverse' and cls.startswith('lexertl::basic_rules<') and not f['params']:
            reverse(ctx, F, f)
        elif f['n'] == 'create' and cls.startswith(GEN):
            create(ctx, F, f)
        elif f['n'] == 'build_tree' and cls.startswith(GEN):
            tree(ctx, F, f)
        elif f['n'] == 'build' and cls.startswith(GEN):
            build(ctx, F, f)


def gname(f):
    return short(f['cls']).replace('basic_', '')


def bit(o, name):
    return o + ':' + name


def push(ctx, F, f):
    I = interp(ctx, F, f, lambda g: g['n'] not in KEPT)
    o, R, where = overload(f), roles(f), f['q'] + ':%d' % f['l']
    segs = segments(I)
    if not segs:
        raise CheckError('nothing recorded by ' + o)
    FE = ('f', THIS, '_features')
    at = {}
    loops = set()
    for p, s in segs:
        for n in FIELDS:
            for i, v in s.get(n, ()):
                at[show(i)] = i
        loops.add(p.end[1] if p.end[0] == 'back' else None)
    n = 0
    for p in I.paths:
        if p.end[0] not in ('ret', 'back') or (p.end[0] == 'back' and p.end[1] in loops):
            continue
        ws = [e for e in p.ev if e[0] == 'write' and e[1][0] == 'i' and e[1][1] == FE]
        whole = [e for e in p.ev if e[0] == 'write' and e[1] == FE]
        ctx.check(not whole, 'recorded', bit(o, 'keeps'), where, 'all recorded features are replaced')
        tok = [e for e in p.ev if e[0] == 'call' and e[1]['n'] == 'tokenise']
        rec = any(e[0] == 'loop' and e[1] in loops for e in p.ev)
        if not rec or not tok:
            ctx.check(not ws, 'recorded', bit(o, 'only'), where, 'features are recorded without a rule\n' + showpath(p))
            continue
        n += 1
        T = tok[-1][4]
        idx = {e[1][2] for e in ws} or set(at.values())
        bad = [i for i in idx if show(i) not in at]
        ctx.check(not bad, 'recorded', bit(o, 'state'), where, 'features recorded for state %s' % (bad and show(bad[0])))
        for i in idx:
            v = I.val(p, ('i', FE, i))
            base = ('in', ('i', FE, i))
            old = leaves_of(v, lambda t: t == base or t[:1] in (('phi',), ('hv',)) and '_features' in str(t))
            bits = value(v, {x: 0 for x in old})
            ok = bits is not None and len(old) == 1 and all(value(v, {b: x for b in old}) == x | bits for x in range(128))
            if not ctx.check(ok, 'recorded', bit(o, 'keeps'), where, 'features become %s' % show(v)):
                continue
            first = ('fld', ('idx', ('idx', T, 0), 1), '_type')
            last = ('idx', T, add(('size', T), -1))
            last = ('fld', ('idx', last, add(('size', last), -2)), '_type')
            ident = ('in', ('v', R['id'])) if R['id'] else 0
            new = ('in', ('d', ('in', ('v', R['new'])))) if R['new'] else None
            skip = (1 << width(F, f)) - 2
            want = [('line-start', BOL, equal(p, first, T_BOL)), ('line-end', EOL, equal(p, last, T_EOL)), ('skip', SKIP, equal(p, ident, skip)),
                    ('again', AGAIN, equal(p, ident, 0)), ('stack', REC, anyof(equal(p, new, 60), equal(p, new, 62)) if new else False)]
            if want[2][2] is True:
                want[3] = want[3][:2] + (False,)
            for name, b, w in want:
                ctx.check(w is not None and bool(bits & b) == w, 'recorded', bit(o, name), where,
                          'feature %s is %srecorded when the rule %s' % (name, '' if bits & b else 'not ',
                                                                         {True: 'uses it', False: 'does not use it', None: 'may or may not use it'}[w]))
            ctx.check(not bits & ~(BOL | EOL | SKIP | AGAIN | REC), 'recorded', bit(o, 'others'), where, 'unknown features %#x' % bits)
    if not n:
        ctx.bad('recorded', o, where, 'no partition adds a rule')


def anyof(a, b):
    return True if True in (a, b) else None if None in (a, b) else False


def width(F, f):
    return nposof(F, f).bit_length()


def anchors(ctx, F, f):
    o = short(f['cls'])
    I = interp(ctx, F, f, lambda g: g['n'] in ('next', 'eos', 'increment', 'clear'))
    tok = ('v', f['params'][2]['n'])
    st = ('v', f['params'][1]['n'])
    seen = set()
    for p in I.paths:
        if p.end[0] != 'ret':
            continue
        t = I.val(p, ('f', tok, '_type'))
        if t == T_BOL:
            seen.add(t)
            cur, want = I.val(p, ('f', st, '_curr')), I.val(p, ('f', st, '_start'))
            begin = equal(p, ('in', ('f', ('v', f['params'][0]['n']), '_type')), 0)
            ctx.check(begin is True or equal(p, add(cur, -1), want) is True, 'anchor-first', o + ':^', f['q'], 'a line-start token is made elsewhere than at the start\n' + showpath(p)[-400:])
        elif t == T_EOL:
            seen.add(t)
            cur, want = I.val(p, ('f', st, '_curr')), I.val(p, ('f', st, '_end'))
            ctx.check(equal(p, cur, want) is True, 'anchor-first', o + ':$', f['q'], 'a line-end token is made elsewhere than at the end\n' + showpath(p)[-400:])
        elif not isinstance(t, int) and not (isinstance(t, tuple) and t[0] in ('hv', 'res')):
            raise CheckError('token type %s in %s' % (show(t), o))
    ctx.check(seen == {T_BOL, T_EOL}, 'anchor-first', o + ':both', f['q'], 'token types made: %s' % seen)


def reverse(ctx, F, f):
    o = short(f['cls'])
    I = interp(ctx, F, f, lambda g: g['n'] != 'reverse')
    L = Loops(I)
    FE = ('f', THIS, '_features')
    done = False
    for h in list(L.desc):
        el = None
        for p in L.backs(h):
            for e in p.ev:
                pass
        d = L.desc[h]
        s = d['start']
        if isinstance(s, tuple) and s[0] == 'begin' and s[1] == FE:
            el = ('d', d['phi'])
        elif s == 0 and d['bound'] in (('size', ('in', FE)), ('size', ('phi', h, FE)), ('size', ('in', ('f', THIS, '_regexes')))):
            el = ('i', FE, d['phi'])
        if el is None:
            continue
        if isinstance(s, tuple) and add(d['bound'], s, -1) not in (('size', ('in', FE)), ('size', ('phi', h, FE))):
            ctx.bad('reverse', o + ':all', f['q'], 'not every state')
            continue
        ok = True
        for x in range(64):
            got = set()
            for p in L.backs(h):
                env = {('in', el): x, ('phi', h, el): x}
                if consistent(p, env):
                    got.add(value(I.val(p, el), env))
            want = (x & ~3) | ((x & 1) << 1) | ((x & 2) >> 1)
            if got != {want}:
                ok = False
                ctx.bad('reverse', o, f['q'], 'features %#x become %s after reversing, expected %#x' % (x, got, want))
                break
        done = done or ok
    ctx.check(done, 'reverse', o, f['q'], 'the recorded line-start and line-end features are not exchanged')


def create(ctx, F, f):
    if not f['params'] or not any('internals' in p['t'] for p in f['params']):
        return
    o = gname(f)
    I = interp(ctx, F, f)
    sm = [p['n'] for p in f['params'] if 'state_machine' in p['t'] and 'internals' not in p['t']]
    ins = ('v', next(p['n'] for p in f['params'] if 'internals' in p['t']))
    fe = next((p['n'] for p in f['params'] if 'vector' in p['t']), None)
    outs = [p for p in I.paths if any(e[0] == 'write' and e[1][0] == 'f' and e[1][2] == '_features' for e in p.ev)]
    if not outs:
        # nothing is created here (the other kind of machine)
        ctx.check(not any(e[0] == 'write' for p in I.paths for e in p.ev), 'combined', o + ':none', f['q'], 'writes without features')
        return
    L = Loops(I)
    IF, FE = ('f', ins, '_features'), ('v', fe)
    dfas = ('size', ('in', ('f', ins, '_dfa')))
    loop = None
    for h, d in L.desc.items():
        backs = L.backs(h)
        el = None
        if d['start'] == 0 and d['bound'] in (dfas, ('size', ('in', FE))):
            el = ('in', ('i', FE, d['phi']))
        elif isinstance(d['start'], tuple) and d['start'] == ('begin', FE) and add(d['bound'], d['start'], -1) in (dfas, ('size', ('in', FE))):
            el = ('in', ('d', d['phi']))
        if el is None or d['down']:
            continue
        # what accumulates: the internals' features or a local
        for P in {P for p in backs for P in p.ret}:
            ok = bool(backs)
            for p in backs:
                v = p.ret.get(P)
                for a in range(64):
                    for b in (0, 1, 2, 4, 8, 32, 35):
                        env = {('phi', h, P): a, el: b}
                        if value(v, env) != a | b:
                            ok = False
            if ok:
                loop = (h, P)
    ctx.check(loop is not None, 'combined', o + ':all', f['q'], 'the features of all start states are not or-ed together')
    if loop is None:
        return
    h, P = loop
    many = ('lt', (((dfas), 1),), -2)
    n = 0
    for p in I.paths:
        if p.end[0] != 'ret' or not any(e[0] == 'loop' and e[1] == h for e in p.ev):
            continue
        ent = next(e[2] for e in p.ev if e[0] == 'loop' and e[1] == h)
        ctx.check(ent.get(P) in (0, ('in', IF)), 'combined', o + ':start', f['q'], 'accumulation starts with %s' % show(ent.get(P)))
        sz = {k for k in (1, 2) if consistent(p, {dfas: k, ('phi', h, ('v', 'i_')): k})}
        ws = [(e[1], I.val(p, e[1])) for e in p.ev if e[0] == 'write' and e[1][0] == 'f' and e[1][2] == '_features' and e[1] != IF]
        for Q, v in ws[-1:]:
            n += 1
            for a in range(64):
                env = {('phi', h, P): a, ('in', IF): 0}
                for k in sz:
                    w = a | (MULTI if k > 1 else 0)
                    r = value(v, dict(env, **{}))
                    if r != w:
                        ctx.bad('combined', o + ':multi_state', f['q'], 'features %#x of %d start state(s) become %s, expected %#x' % (a, k, r, w))
                        break
                else:
                    continue
                break
            else:
                ctx.ok('combined', o + ':multi_state', f['q'])
    ctx.check(n > 0, 'combined', o + ':written', f['q'], 'the machine is not given the features')


def tree(ctx, F, f):
    o = gname(f)
    I = interp(ctx, F, f, lambda g: g['n'] != 'parse')
    rules = ('v', f['params'][0]['n'])
    dfa = ('in', ('v', f['params'][1]['n']))
    leaf = ('in', ('i', ('f', rules, '_features'), dfa))
    n = 0
    for p in I.paths:
        for e in p.ev:
            if e[0] == 'call' and e[1]['n'] == 'parse':
                n += 1
                bad = [x for x in range(64) if consistent(p, {leaf: x}) and truthy(p, e[3][-1], {leaf: x}) != bool(x & BOL)]
                ctx.check(not bad, 'line-start', o, f['q'], 'with features %s of the state the parser is told %s'
                          % (bad[:1], show(e[3][-1])))
    ctx.check(n > 0, 'line-start', o + ':parse', f['q'], 'no rule is parsed')


def truthy(p, v, env):
    x = value(v, env)
    return None if x is None else bool(x)


def build(ctx, F, f):
    o = gname(f)
    I = interp(ctx, F, f, lambda g: g.get('cls', '').startswith('lexertl::basic_rules<'))
    rules = ('v', f['params'][0]['n'])
    want = ('f', rules, '_features')
    n = 0
    for p in I.paths:
        for e in p.ev:
            if e[0] == 'call' and e[1]['n'] == 'create':
                n += 1
                got = [a for a in e[3] if a in (('addr', want), ('in', want), want)]
                ctx.check(got, 'handed-on', o, f['q'], 'create is given %s' % ', '.join(show(a) for a in e[3]))
    if not n:
        raise CheckError('create is not called by build of ' + o)
