"""C20: names, ids, lists of start states and state numbers."""
from record_model import *
from c30_priority import found, textof, nposof
import bits as B

OUTER = ('_regexes', '_regex_strings', '_features', '_ids', '_user_ids', '_next_dfas', '_pushes', '_pops')
ERROR = 'lexertl::runtime_error'
SM = ('f', THIS, '_statemap')
NAMES = ('f', THIS, '_lexer_state_names')
MACROS = ('f', THIS, '_macro_map')
LETTER = ((65, 90), (95, 95), (97, 122))
TRAIL = LETTER + ((45, 45), (48, 57))
KEEP = {'narrow', 'tokenise', 'initial', 'validate'}


def run(ctx):
    ctx.rule('names', 'a name is accepted exactly if it is a letter or _ followed by letters, digits, _ and - up to its end', 15)
    ctx.rule('checked', 'no start state and no macro is recorded under a name that was not checked', 10)
    ctx.rule('ids', 'a rule is recorded under every id but 0 and npos, and never under those two', 30)
    ctx.rule('numbers', 'a new start state gets the next number, its own empty slot in every table and its name; a known one keeps its number', 40)
    ctx.rule('full', 'a start state is refused exactly if it is new and its number would be npos', 5)
    ctx.rule('inverse', 'state(number) and state(name) look up what push_state recorded', 15)
    ctx.rule('only', 'nothing but push_state and clear changes the start states', 50)
    ctx.rule('macros', 'a macro is stored once, under its name and with its own tokens; using an unknown one is refused', 15)
    ctx.rule('star', '"*" and nothing else stands for every start state, from the first to the last', 10)
    ctx.rule('list', 'a list of start states is cut exactly at its commas, and every name between them is looked up and used', 30)
    ctx.rule('unknown', 'a start state that is not known is refused wherever a rule names it', 30)
    ctx.rule('exit', 'the new state is split at its first colon, and a pushed state needs the leading >', 10)
    ctx.assume('std::map, std::vector and std::basic_string behave as the standard says')
    F = ctx.facts('d_core')
    fs = [f for f in F.fns.values() if 'body' in f and f.get('cls', '').startswith('lexertl::basic_rules<')]
    if not fs:
        raise CheckError('basic_rules not instantiated')
    for f in fs:
        n = len(f['params'])
        if f['n'] == 'validate':
            names(ctx, F, f)
        elif f['n'] == 'push_state':
            push_state(ctx, F, f)
        elif f['n'] == 'insert_macro':
            insert_macro(ctx, F, f)
        elif f['n'] == 'process_macro':
            process_macro(ctx, F, f)
        elif f['n'] == 'state' and n == 1:
            state(ctx, F, f)
        elif f['n'] == 'push':
            push(ctx, F, f)
    only(ctx, F, fs)


# ---- characters ------------------------------------------------------------------------------------------------------------------------------------

class Chars:
    """which of the characters of some classes a partition allows at a place"""

    def __init__(self, I, t, classes):
        self.I, self.t, self.cl = I, t, classes
        self.memo = {}
        self.of = {}
        self.scans = {}

    def tags(self, p, leaf):
        if leaf not in self.memo:
            ats = set()
            for q in self.I.paths:
                for a in q.facts.atoms:
                    if any(B.mentions(x, leaf) for x, _ in a[1]):
                        ats.add(a)
            self.memo[leaf] = B.split(leaf, self.t, self.cl, sorted(ats, key=repr))
        if (id(p), leaf) in self.of:
            return self.of[id(p), leaf]
        out = self.of[id(p), leaf] = set()
        for base, k, tag, known in self.memo[leaf]:
            if all(v is None or p.facts.query(a) in (None, v) for a, v in known.items()):
                out.add(tag)
        return out


def chartype(f):
    t = [q['t'] for q in f['params'] if '*' in q['t']]
    return bare(t[0].split('*')[0].replace('const', '').strip())


def classes(width, *sets):
    """[(lo, hi, tag)] partition of 0 .. 2^width-1: sets = (tag, ranges), the rest is 'else'"""
    cuts = sorted((a, b, tag) for tag, rs in sets for a, b in rs)
    out, at = [], 0
    for a, b, tag in cuts:
        if a > at:
            out.append((at, a - 1, 'else'))
        out.append((a, b, tag))
        at = b + 1
    out.append((at, (1 << width) - 1, 'else'))
    return out


def names(ctx, F, f):
    t = chartype(f)
    o = short(f['cls'])
    where = f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, lambda g: g['n'] != 'narrow')
    P, E = f['params'][0]['n'], f['params'][1]['n'] if len(f['params']) > 1 else None
    start, end = ('in', ('v', P)), ('in', ('v', E)) if E else None
    C = Chars(I, t, classes(B.W[t], ('end', ((0, 0),)), ('letter', LETTER), ('more', ((45, 45), (48, 57)))))
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        # characters looked at, in order: at the start first, then at the position of the loop
        bases = [start]
        adv = {}
        for e in p.ev:
            if e[0] == 'loop':
                for Q, v in e[2].items():
                    if isinstance(add(v, start, -1), int):
                        ph = phiof(I, e[1], Q)
                        bases.append(ph)
                        adv[ph] = add(v, start, -1)
        upto = adv[bases[1]] if len(bases) > 1 else None
        state_ = walk_name(p, C, start, True, end, upto)
        if len(bases) == 1:
            verdict = state_
        elif state_ != 'in' and upto:
            ctx.bad('names', o + ':first', where, 'goes on after a start that is %s' % state_)
            continue
        else:
            ph = bases[-1]
            if p.end[0] == 'back':
                nxt = add(p.ret.get(next(Q for Q in I.classes[I_block(I, p.end[1])] if phiof(I, p.end[1], Q) == ph), 0), ph, -1)
                if not (isinstance(nxt, int) and nxt >= 1):
                    ctx.bad('names', o + ':step', where, 'the position moves by %s a round' % show(nxt))
                    continue
                verdict = walk_name(p, C, ph, adv[ph] == 0, end, nxt)
                ctx.check(verdict == 'in' and adv[ph] > 0, 'names', o + ':goes-on', where,
                          'goes on to the next character after one that is %s' % verdict)
                continue
            verdict = walk_name(p, C, ph, adv[ph] == 0, end, None)
        if p.end[0] == 'ret':
            ctx.check(verdict == 'end', 'names', o + ':accepts', where, 'accepts a name with a character that is %s' % verdict)
        else:
            ctx.check(verdict == 'bad' and p.end[1] == ERROR, 'names', o + ':refuses', where,
                      '%s for a character that is %s' % (p.end[:2], verdict))


def phiof(I, h, Q):
    c = I.classes[I_block(I, h)]
    return ('phi', h, c[Q]) if Q in c else None


def I_block(I, h):
    return next(b for b, n in I.hnum.items() if n == h)


def walk_name(p, C, base, first, end, upto):
    """in: `upto` characters of the name seen / end: the name ends / bad: a character that may not stand there / what it was otherwise"""
    for k in range(8):
        if upto is not None and k == upto:
            return 'in'
        pos = add(base, k)
        at = truth(p, atom_eq(pos, end)) if end else False
        head = first and k == 0
        if at is True and not head:
            return 'end'
        tags = C.tags(p, ('in', ('d', pos)))
        ok = {'letter'} if head else {'letter', 'more'}
        if tags == {'end'} and not head:
            return 'end'
        if not tags & ok and (head or 'end' not in tags) and (head or at is False or not end):
            return 'bad'
        if tags <= ok and (head or at is False or not end):
            continue
        return 'one of %s%s' % (sorted(tags), '' if at is False or not end or head else ' (perhaps at the end)')
    raise CheckError('a name is looked at too far ahead')


# ---- start states and macros -----------------------------------------------------------------------------------------------------------------------

def lookup(p, M, name):
    """is the name of parameter value `name` known to be in map M on partition p: True / False / None"""
    out = set()
    for a, pol in p.facts.atoms.items():
        if a[0] == 'eq':
            for x, _ in a[1]:
                if isinstance(x, tuple) and x[:2] in (('m', 'find'), ('m', 'count')) and x[2] == ('in', M) and textof(x[3][0]) == (name,):
                    if any(y == ('begin', M) for y, _ in a[1]) if x[1] == 'find' else len(a[1]) == 1 and a[2] == 0:
                        out.add(not pol)
                if isinstance(x, tuple) and x[0] == 'fld' and x[2] == 'second' and isinstance(x[1], tuple) and x[1][0] == 'res' and \
                        x[1][2] in ('insert', 'emplace', 'try_emplace') and len(a[1]) == 1 and a[2] == 0:
                    out.add(pol)
    return 'never' if len(out) == 2 else out.pop() if out else None


def strip_cast(v):
    while isinstance(v, tuple) and v[0] == 'cast':
        v = v[2]
    return v


def checkedname(p, name):
    return any(e[0] == 'call' and e[1]['n'] == 'validate' and e[3] and e[3][0] == name and (len(e[3]) < 2 or e[3][1] == 0) for e in p.ev)


def push_state(ctx, F, f):
    ctx.analysed(f)
    o = short(f['cls'])
    where = f['q'] + ':%d' % f['l']
    npos = nposof(F, f)
    I = Interp(Lower(F, lambda g: g['n'] not in KEEP, allcalls=True).lower(f))
    I.run()
    ctx.count('partitions', len(I.paths))
    name = ('in', ('v', f['params'][0]['n']))
    size = ('size', ('in', SM))
    tables = [('size', ('in', ('f', THIS, n))) for n in OUTER]
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        known = lookup(p, SM, name)
        if known == 'never':
            continue
        full = next((q for s in [size] + tables for q in [truth(p, atom_lt(s, npos))] if q is not None), None)
        if p.end[0] == 'throw':
            ctx.check(known is False and full is False and p.end[1] == ERROR, 'full', o + ':refused', where,
                      'refused although %s' % ('known' if known is not False else 'not full'))
            continue
        ctx.check(checkedname(p, name), 'checked', o + ':push_state', where, 'a start state is recorded without its name being checked')
        ins = [e for e in p.ev if e[0] == 'call' and e[2] == SM and e[1]['n'] in ('insert', 'emplace', 'try_emplace')]
        if known is True:
            v = p.ret
            ok, key = False, None
            if isinstance(v, tuple) and v[0] == 'in' and v[1][0] == 'f' and v[1][2] == 'second' and v[1][1][0] == 'd':
                m = v[1][1][1]
                ok = isinstance(m, tuple) and m[:2] == ('m', 'find') and textof(m[3][0]) == (name,) and root(m[2]) == ('in', SM)
            ctx.check(ok, 'numbers', o + ':known', where, 'the number given back for a known start state is %s' % show(v)[:160])
            changed = {e[1][2] for e in p.ev if e[0] == 'write' and e[1][0] == 'f' and e[1][1] == THIS} - {'_statemap'}
            ctx.check(not changed, 'numbers', o + ':known-kept', where, 'a known start state changes %s' % sorted(changed))
            continue
        ctx.check(full is True, 'full', o + ':room', where, 'a new start state is accepted without room for its number')
        if not ctx.check(known is False and len(ins) == 1, 'numbers', o + ':entered', where,
                         'a new start state is entered %d times (known: %s)' % (len(ins), known)):
            continue
        a = ins[0][3]
        if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'new' and 'pair' in a[0][1]:
            a = a[0][2]
        ok = len(a) == 2 and textof(a[0]) == (name,) and strip_cast(a[1]) in [size] + tables
        ctx.check(ok, 'numbers', o + ':number', where, 'a new start state is entered as %s' % str(a)[:200])
        for n in OUTER:
            w = [e for e in p.ev if e[0] == 'write' and e[1] == ('f', THIS, n)]
            good = len(w) == 1 and isinstance(w[0][2], tuple) and w[0][2][0] == 'push' and w[0][2][1] == ('in', ('f', THIS, n)) and \
                (w[0][2][2] in (0, ('empty',)) or w[0][2][2][0] == 'new' and not [x for x in w[0][2][2][2] if x != ('empty',)])
            ctx.check(good, 'numbers', o + ':slot' + n, where, 'a new start state changes %s as %s' % (n, [show(e[2])[:80] for e in w]))
        first = isinitial(p, name)
        w = [e for e in p.ev if e[0] == 'write' and e[1] == NAMES]
        if first is True:
            ctx.check(not w, 'numbers', o + ':initial', where, 'INITIAL is listed among the other names')
            want = [('size', ('in', NAMES)), 0]
        else:
            good = first is False and len(w) == 1 and w[0][2][0] == 'push' and w[0][2][1] == ('in', NAMES) and textof(w[0][2][2]) == (name,)
            ctx.check(good, 'numbers', o + ':name', where, 'the name of a new start state is recorded as %s' % [show(e[2])[:80] for e in w])
            want = [add(('size', ('in', NAMES)), 1)]
        ctx.check(strip_cast(p.ret) in want + [size] + tables, 'numbers', o + ':given-back', where,
                  'the number given back for a new start state is %s' % show(p.ret)[:160])


def root(v):
    while isinstance(v, tuple) and v[0] == 'mut':
        v = v[2]
    return v


def isinitial(p, name):
    """does partition p know whether the name is INITIAL"""
    for a, pol in p.facts.atoms.items():
        if a[0] == 'eq' and len(a[1]) == 2 and a[2] == 0:
            ts = [t for t, _ in a[1]]
            ini = [t for t in ts if isinstance(t, tuple) and any('initial' == x for x in flat_(t))]
            nam = [t for t in ts if t not in ini and textof(t) == (name,)]
            if ini and nam:
                return pol
    return None


def flat_(v):
    if isinstance(v, tuple):
        for x in v:
            yield from flat_(x)
    else:
        yield v


def insert_macro(ctx, F, f):
    ctx.analysed(f)
    o = short(f['cls']) + '(' + ', '.join(p['n'].strip('_') for p in f['params'][1:]) + ')'
    where = f['q'] + ':%d' % f['l']
    npos = nposof(F, f)
    I = Interp(Lower(F, lambda g: g['n'] not in KEEP, allcalls=True).lower(f))
    I.run()
    ctx.count('partitions', len(I.paths))
    name = ('in', ('v', f['params'][0]['n']))
    text = tuple(('in', ('v', q['n'])) for q in f['params'][1:])
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        known = lookup(p, MACROS, name)
        if p.end[0] == 'throw':
            ctx.check(known is True and p.end[1] == ERROR, 'macros', o + ':twice', where, 'a macro not known yet is refused')
            continue
        ctx.check(known is False, 'macros', o + ':once', where, 'a macro is accepted without its name being new')
        ctx.check(checkedname(p, name), 'checked', o + ':macro', where, 'a macro is recorded without its name being checked')
        tok = [e for e in p.ev if e[0] == 'call' and e[1]['n'] == 'tokenise']
        ins = [e for e in p.ev if e[0] == 'call' and e[2] == MACROS and e[1]['n'] in ('insert', 'emplace', 'try_emplace')]
        if not ctx.check(len(tok) == 1 and len(ins) == 1, 'macros', o + ':entered', where, '%d texts read, %d entries made' % (len(tok), len(ins))):
            continue
        t = tok[0]
        ctx.check(textof(t[3][0]) == text and t[3][1] == npos and t[3][2] == name, 'macros', o + ':text', where,
                  'reads %s' % ', '.join(show(x)[:60] for x in t[3]))
        a = ins[0][3]
        if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'new' and 'pair' in a[0][1]:
            a = a[0][2]
        v = a[1] if len(a) == 2 else None
        ok = v is not None and textof(a[0]) == (name,) and v in (('idx', t[4], 0), ('idx', t[4], add(('size', t[4]), -1)))
        ctx.check(ok, 'macros', o + ':stored', where, 'stored: %s' % ', '.join(show(x)[:80] for x in a))


def process_macro(ctx, F, f):
    o = short(f['cls'])
    where = f['q'] + ':%d' % f['l']
    I = interp(ctx, F, f, lambda g: g['n'] not in KEEP)
    rhs = next(q['n'] for q in f['params'] if 'token' in q['t'] and '&' in q['t'] and 'vector' not in q['t'])
    name = ('in', ('f', ('v', rhs), '_extra'))
    seen = set()
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        k = lookup(p, MACROS, name)
        seen.add((k, p.end[0]))
        if k is not True:
            ctx.check(k is False and p.end[:2] == ('throw', ERROR), 'macros', o + ':unknown', where, 'a macro not known is used (%s)' % (p.end,))
    ctx.check((True, 'ret') in seen, 'macros', o + ':used', where, 'a known macro is never used')


def state(ctx, F, f):
    o = short(f['cls'])
    where = f['q'] + ':%d' % f['l']
    npos = nposof(F, f)
    I = interp(ctx, F, f, lambda g: g['n'] not in KEEP)
    P = ('in', ('v', f['params'][0]['n']))
    seen = set()
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        r = p.ret
        if '*' in f['params'][0]['t']:
            k = lookup(p, SM, P)
            if k is True:
                ok, key = found(r)
                ctx.check(ok and textof(key) == (P,), 'inverse', o + ':number', where, 'the number of a known start state is %s' % show(r)[:120])
            else:
                ctx.check(k is False and r == npos, 'inverse', o + ':none', where, 'the number of an unknown start state is %s' % show(r)[:120])
            seen.add(k)
            continue
        zero = equal(p, P, 0)
        if zero is True:
            ctx.check(any(x == 'initial' for x in flat_(r)), 'inverse', o + ':initial', where, 'start state 0 is called %s' % show(r))
            continue
        at = [x for x in nested(p, NAMES)]
        inr = next((q for q in at if q is not None), None)
        if inr is True:
            i = index_of(r)
            ctx.check(zero is False and i is not None and strip_cast(i) == add(P, -1), 'inverse', o + ':name', where,
                      'the name of a start state is %s' % show(r)[:160])
        else:
            ctx.check(zero is False and inr is False and r == 0, 'inverse', o + ':out', where,
                      'the name of a number there is no start state for is %s' % show(r)[:120])
        seen.add(inr)
    ctx.check(seen >= {True, False}, 'inverse', o + ':cases', where, 'cases told apart: %s' % seen)


def nested(p, V):
    """what p knows about number - 1 < size of the names, however the number was narrowed"""
    s = ('size', ('in', V))
    for a, pol in p.facts.atoms.items():
        if a[0] == 'lt' and len(a[1]) == 2:
            d = dict(a[1])
            other = next((t for t in d if t != s), None)
            if s not in d or d[s] * d[other] != -1:
                continue
            shift = 0 if isinstance(other, tuple) and other[0] == 'cast' else 1
            # other - s + c < 0 (inside)  or  s - other + c < 0 (outside)
            if d[other] == 1 and a[2] == -shift:
                yield pol
            elif d[other] == -1 and a[2] == shift - 1:
                yield not pol


def index_of(v):
    """index of the name whose characters are given back"""
    if isinstance(v, tuple) and v[0] in ('begin', 'addr', 'm', 'in', 'i', 'idx'):
        for x in v[1:]:
            if isinstance(x, tuple):
                if x[0] == 'i' and x[1] == NAMES:
                    return x[2]
                if x[0] == 'idx' and x[1] == ('in', NAMES):
                    return x[2]
                y = index_of(x)
                if y is not None:
                    return y
    return None


def only(ctx, F, fs):
    """members that add or remove start states are push_state, clear and what only these use"""
    own = {}
    for f in fs:
        if not f.get('static') and f['n'] not in ('basic_rules', '~basic_rules', 'operator='):
            own.setdefault(f['cls'], []).append(f)
    for cls, ms in own.items():
        users = {}
        for g in ms:
            for x in nodes(g):
                if x.get('fn') is not None:
                    users.setdefault(x['fn'], set()).add(g['n'] + '()' * bool(g['params'] and g['n'] == 'clear'))
        ids_ = {i: g for i, g in F.fns.items()}
        for i, f in ids_.items():
            if f not in ms:
                continue
            o = short(cls) + ':' + f['n']
            where = f['q'] + ':%d' % f['l']
            I = interp(ctx, F, f, lambda g: False)
            bad = set()
            for p in I.paths:
                for e in p.ev:
                    if e[0] == 'write' and e[1] in [SM, NAMES] + [('f', THIS, n) for n in OUTER] and not update(e[2]):
                        bad.add(e[1][2])
            inside = f['n'] == 'push_state' or f['n'] == 'clear' and not f['params'] or (users.get(i) and users[i] <= {'push_state', 'clear'} and f.get('access') != 'public')
            ctx.check(inside or not bad, 'only', o, where, '%s changes %s' % (f['n'], sorted(bad)))


def update(v):
    """the same container with elements changed"""
    return isinstance(v, tuple) and v[0] in ('upd', 'hv', 'phi', 'in')


# ---- lists of start states -------------------------------------------------------------------------------------------------------------------------

def push(ctx, F, f):
    o = overload(f)
    R = roles(f)
    where = f['q'] + ':%d' % f['l']
    npos = nposof(F, f)
    I = interp(ctx, F, f, lambda g: g['n'] not in KEEP)
    if R['id'] and not any(bare(q['t']) == 'bool' for q in f['params']):
        ids(ctx, I, f, o, R, where, npos)
    if R['curr']:
        lists(ctx, I, f, o, R, where)


def ids(ctx, I, f, o, R, where, npos):
    leaf = ('in', ('v', R['id']))
    w = npos.bit_length()
    t = bare(next(q['t'] for q in f['params'] if q['n'] == R['id']))
    C = Chars(I, t, [(0, 0, 'eoi'), (1, npos - 1, 'id'), (npos, npos, 'npos')])
    recording = {id(p) for p, s in segments(I)}
    may, refused = set(), set()
    for p in I.paths:
        tags = C.tags(p, leaf)
        if id(p) in recording or p.end[0] == 'ret':
            may |= tags
    ctx.check('eoi' not in may, 'ids', o + ':eoi', where, 'a rule is recorded under the id of the end of the input')
    ctx.check('npos' not in may, 'ids', o + ':npos', where, 'a rule is recorded under the id of what no rule matches')
    # every other id is accepted
    atoms = [a for p in I.paths for a in p.facts.atoms if any(B.mentions(x, leaf) for x, _ in a[1])]
    blocks = B.split(leaf, t, [(1, npos - 1, 'id')], sorted(set(atoms), key=repr))
    rec = [p for p in I.paths if id(p) in recording]
    lost = [b for b in blocks if not any(all(v is None or p.facts.query(a) in (None, v) for a, v in b[3].items()) for p in rec)]
    ctx.check(not lost and bool(blocks), 'ids', o + ':others', where, 'no rule can be recorded under id %s' % [b[0] for b in lost][:4])


def listplace(L, p, idx):
    """the list the state recorded for is taken from: (value, place)"""
    v = None
    if isinstance(idx, tuple) and idx[0] == 'idx' and L.local(p, idx[2]) == (0, ('size', idx[1])):
        v = idx[1]
    elif isinstance(idx, tuple) and idx[0] == 'phi' and idx[2][0] == 'i' and L.local(p, idx[2][2]) == (0, ('size', ('phi', idx[1], idx[2][1]))):
        v = ('phi', idx[1], idx[2][1])
    elif isinstance(idx, tuple) and idx[0] == 'in' and idx[1][0] == 'd':
        d = L.local(p, idx[1][1])
        if d and isinstance(d[0], tuple) and d[0][0] == 'begin':
            n = add(d[1], d[0], -1)
            if isinstance(n, tuple) and n[0] == 'size':
                v = n[1]
    return v


def pushes_to(I, P):
    """[(p, index of the event, value)] of what is appended to the list at place P"""
    out = []
    for p in I.paths:
        for k, e in enumerate(p.ev):
            if e[0] == 'call' and e[2] == P and e[1]['n'] in ('push_back', 'emplace_back') and len(e[3]) == 1:
                out.append((p, k, e[3][0]))
    return out


def lists(ctx, I, f, o, R, where):
    L = Loops(I)
    L.ways, L.same = {}, {}
    t = chartype(f)
    c = ('in', ('v', R['curr']))
    c0, c1 = ('in', ('d', c)), ('in', ('d', add(c, 1)))
    places = set()
    for p, s in segments(I):
        for i, _ in s.get('_ids', ()):
            v = listplace(L, p, i)
            while isinstance(v, tuple) and v[0] == 'push':
                v = v[1]
            places.add(v[2] if isinstance(v, tuple) and v[0] == 'phi' else None)
    if not ctx.check(len(places) == 1 and None not in places, 'list', o + ':used', where,
                     'rules are not recorded for every state of one list of states (%s)' % sorted(map(str, places))[:3]):
        return
    P = places.pop()
    app = pushes_to(I, P)
    stars, lsts = {}, {}
    for p, k, v in app:
        both = equal(p, c0, 42), equal(p, c1, 0)
        star = True if both == (True, True) else False if False in both else None
        hs = [e[1] for e in p.ev[:k] if e[0] == 'loop' and P in I.classes[I_block(I, e[1])]]
        if not ctx.check(star is not None and bool(hs), 'star', o + ':told-apart', where, 'what is used does not depend on the list being "*"'):
            continue
        (stars if star else lsts).setdefault(hs[-1], []).append((p, k, v))
    ctx.check(len(stars) == 1, 'star', o + ':loop', where, '%d loops for "*"' % len(stars))
    for h, ps in stars.items():
        for p, k, v in ps:
            d = L.local(p, v)
            ok = p.end[:2] == ('back', h) and d is not None and d[0] == 0 and strip_cast(d[1]) in [('size', ('in', SM))] + \
                [('size', ('in', ('f', THIS, n))) for n in OUTER]
            ctx.check(ok, 'star', o + ':all', where, '"*" uses %s, counted %s' % (show(v), d))
        for b in L.backs(h):
            ctx.check(len([1 for p, k, v in ps if p is b]) == 1, 'star', o + ':each', where, 'a start state is left out or used twice')
        fresh(ctx, I, L, h, P, 'star', o, where)
    ctx.check(len(lsts) == 1, 'list', o + ':loop', where, '%d loops over the list' % len(lsts))
    for h, ps in lsts.items():
        listloop(ctx, I, L, h, ps, P, t, c, o, where)
        fresh(ctx, I, L, h, P, 'list', o, where)
    # whatever is used was found
    for p, s in segments(I):
        for n in ('_next_dfas', '_pushes'):
            for _, v in s.get(n, ()):
                looked(ctx, p, v, o, where)
    exits(ctx, I, L, f, R, o, where, t)


def fresh(ctx, I, L, h, P, rule, o, where):
    ent = {e[2].get(P) for p, k, _ in L.entries(h) for e in [p.ev[k]]}
    ctx.check(ent == {('empty',)}, rule, o + ':fresh', where, 'the list of states starts as %s' % [show(x) for x in ent])


def looked(ctx, p, v, o, where):
    ok, key = found(v)
    if not ok:
        return None
    m = v[1][1][1]
    known = None
    for a, pol in p.facts.atoms.items():
        if a[0] == 'eq' and any(x == m for x, _ in a[1]) and any(x == ('begin', SM) for x, _ in a[1]):
            known = not pol
    ctx.check(known is True, 'unknown', o, where, 'the number of a start state is used without the state being known: %s' % show(key)[:80])
    return key


def scan(I, C, p, ph, stops):
    """ph is where a scan stops: it stops at the characters `stops` only, and goes on one by one otherwise; where p starts it, or None"""
    if not (isinstance(ph, tuple) and ph[0] == 'phi'):
        return None
    h = ph[1]
    leaf = ('in', ('d', ph))
    Q = next((Q for Q in I.classes[I_block(I, h)] if phiof(I, h, Q) == ph), None)
    if ph not in C.scans:
        ok = True
        for q in I.paths:
            if q.end[0] == 'unreach' or not any(e[0] == 'loop' and e[1] == h for e in q.ev):
                continue
            tags = C.tags(q, leaf)
            if q.end == ('back', h):
                ok = ok and add(q.ret.get(Q, 0), ph, -1) == 1 and not tags & stops
            else:
                ok = ok and tags <= stops
        C.scans[ph] = ok
    ks = [k for k, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == h]
    return p.ev[ks[-1]][2][Q] if C.scans[ph] and ks else None


def span_of(I, p, k, key):
    """(first, past the last) or (first,) of the name looked up"""
    s = cutof(I, p, k, key)
    if len(s) == 2:
        n = add(s[0], strip_cast(s[1]))     # first and length
        if isinstance(n, tuple) and n[0] == 'phi':
            return s[0], n
    return s


def cutof(I, p, k, key):
    t = textof(key)
    if len(t) == 1 and isinstance(t[0], tuple) and t[0][0] in ('begin', 'in', 'm', 'hv', 'phi', 'mut'):
        v = t[0]
        if v[0] == 'mut' and v[1] == 'assign' and len(v[3]) == 2:
            return tuple(v[3])
        Q = v[1] if v[0] == 'begin' else None
        if Q is not None:
            if not any(e[0] == 'call' and e[2] == Q for e in p.ev) and p.end[0] in ('ret', 'back'):
                s = textof(p.ret[Q] if p.end[0] == 'back' and Q in p.ret else I.val(p, Q))
                return s if len(s) == 2 else ()
            for e in reversed(p.ev[:k]):
                if e[0] in ('call', 'write') and e[1 if e[0] == 'write' else 2] == Q:
                    if e[0] == 'call' and e[1]['n'] == 'assign' and len(e[3]) == 2:
                        return tuple(e[3])
                    if e[0] == 'write' and isinstance(e[2], tuple) and e[2][0] == 'new':
                        return textof(e[2])
                    return ()
    return t


def listloop(ctx, I, L, h, ps, P, t, c, o, where):
    C = Chars(I, t, classes(B.W[t], ('end', ((0, 0),)), ('comma', ((44, 44),))))
    going = []
    for p, k, v in ps:
        s = span_of(I, p, k, found(v)[1]) if found(v)[0] else ()
        if p.end == ('back', h) and len(s) == 2 and 'comma' in C.tags(p, ('in', ('d', s[1]))):
            going.append(p)
    for p, k, v in ps:
        j = max(i for i, e in enumerate(p.ev[:k]) if e[0] == 'loop' and e[1] == h)
        if not ctx.check(not [1 for q, m, w in ps if q is p and m != k and m > j], 'list', o + ':once', where, 'one name of the list is used twice'):
            continue
        key = looked(ctx, p, v, o, where)
        s = span_of(I, p, k, key) if key is not None else ()
        if not ctx.check(len(s) == 2, 'list', o + ':cut', where, 'what is used is %s, not the name between two commas' % show(v)[:160]):
            continue
        first, past = s
        st = scan(I, C, p, past, {'end', 'comma'})
        ctx.check(st is not None and st in samepos(I, L, h, going, first), 'list', o + ':cut', where,
                  'the name used runs from %s to %s, which is not where the next comma or the end is' % (show(first), show(past)))
        if not (isinstance(past, tuple) and past[0] == 'phi'):
            continue
        Q = placeof(I, L, h, first)
        if not ctx.check(Q is not None, 'list', o + ':position', where, 'the start of a name is %s' % show(first)):
            continue
        ctx.check({e[2].get(Q) for q, i, _ in L.entries(h) for e in [q.ev[i]]} == {c}, 'list', o + ':from-start', where,
                  'the list is not read from its start')
        tags = C.tags(p, ('in', ('d', past)))
        for tag, code in (('end', 0), ('comma', 44)):
            if tag not in tags:
                continue
            if p.end == ('back', h):
                more = goes_on(I, L, h, p, ('in', ('d', past)), code, ps)
                if tag == 'comma':
                    nxt = {x: p.ret.get(x) for x in aliases(I, L, h, going, Q)}
                    ctx.check(all(n == add(past, 1) for n in nxt.values()), 'list', o + ':next-name', where,
                              'after a comma the next name starts at %s' % [show(x) for x in nxt.values()])
            else:
                more = {False}
            want = {tag == 'comma'}
            ctx.check(more == want, 'list', o + (':goes-on' if tag == 'comma' else ':ends'), where,
                      'after a name followed by %s the list %s' % (tag, 'may go on' if True in more else 'may end'))
    # the first name is always read
    for q, i, ent in L.entries(h):
        if any(e[0] == 'loop' and e[1] == h for e in q.ev[:i]):
            continue
        more = enters(I, L, h, ent, q, {}, ps)
        ctx.check(more == {True}, 'list', o + ':first', where, 'the first name of the list may not be looked at')
    for b in L.backs(h):
        ctx.check(any(q is b for q, m, w in ps), 'list', o + ':each', where, 'a name of the list is passed over')


def placeof(I, L, h, v):
    return next((Q for Q in sorted(I.classes[I_block(I, h)], key=repr) if phiof(I, h, Q) == v), None)


def aliases(I, L, h, going, Q):
    """positions of the loop that hold the same value as Q at its head whenever a name is read"""
    if (h, Q) not in L.same:
        ents = {id(e): e for q, i, e in L.entries(h)}.values()
        f = lambda X: [str(e.get(X)) for e in ents] + [str(b.ret.get(X)) for b in going]
        L.same[h, Q] = [Q] + [X for X in I.classes[I_block(I, h)] if X != Q and f(X) == f(Q)]
    return L.same[h, Q]


def samepos(I, L, h, going, first):
    Q = placeof(I, L, h, first)
    return {first} | ({phiof(I, h, X) for X in aliases(I, L, h, going, Q)} if Q else set())


def goes_on(I, L, h, p, leaf, code, ps):
    ent = {Q: p.ret.get(Q, phiof(I, h, Q)) for Q in I.classes[I_block(I, h)]}
    return enters(I, L, h, ent, p, {leaf: code}, ps)


def enters(I, L, h, ent, p, env, ps):
    """from the head with these values: may a name be used (True) / the loop be left (False)"""
    ren = {phiof(I, h, Q): v for Q, v in ent.items()}
    if h not in L.ways:
        L.ways[h] = ways(I, L, h, set(ren), ps)
    out = set()
    for decs, used in L.ways[h]:
        if used in out:
            continue
        for a, pol in decs:
            tr = judge(subst(('x', a), ren)[1], env, p)
            if tr is not None and tr is not pol:
                break
        else:
            out.add(used)
    return out


def ways(I, L, h, phis, ps):
    """{(decisions about the values at the head, is a name used then)}"""
    out = set()
    for q in I.paths:
        ks = [k for k, e in enumerate(q.ev) if e[0] == 'loop' and e[1] == h]
        if not ks or q.end[0] == 'unreach':
            continue
        decs = []
        for e in q.ev[ks[-1] + 1:]:
            if e[0] == 'loop':
                break
            if e[0] == 'dec' and any(B.mentions(x, y) for x, _ in e[1][1] for y in phis):
                decs.append((e[1], q.facts.query(e[1])))
        used = any(r is q and k > ks[-1] for r, k, v in ps) or \
            q.end != ('back', h) and q.end[0] in ('back', 'throw') and inner_of(I, L, q, ks[-1], ps)
        out.add((tuple(d for d in decs if d[1] is not None), used))
    return out


def inner_of(I, L, q, k, ps):
    """the head q goes to next is one a name is cut at"""
    nx = next((e[1] for e in q.ev[k + 1:] if e[0] == 'loop'), None)
    for r, m, v in ps:
        hs = [e[1] for e in r.ev[:m] if e[0] == 'loop']
        if hs and nx == hs[-1]:
            return True
    return False


def judge(a, env, p):
    """truth of an atom whose terms may be decided values"""
    if isinstance(a, bool):
        return a
    n = a[2]
    for x, c in a[1]:
        v = num(x, env, p)
        if v is None:
            q = p.facts.query(a) if all(not isinstance(y, tuple) or y[0] != 'cmp' for y, _ in a[1]) else None
            return q
        n += c * v
    return n == 0 if a[0] == 'eq' else n < 0


def num(x, env, p):
    if isinstance(x, (bool, int)):
        return int(x)
    if x in env:
        return env[x]
    if isinstance(x, tuple) and x[0] == 'cmp':
        r = judge(x[1], env, p)
        return None if r is None else int(r is x[2])
    if isinstance(x, tuple) and x[0] == 'lin':
        n = x[2]
        for y, c in x[1]:
            v = num(y, env, p)
            if v is None:
                return None
            n += c * v
        return n
    if isinstance(x, tuple) and x[0] == 'cast':
        return num(x[2], env, p)
    return None


# ---- new states ------------------------------------------------------------------------------------------------------------------------------------

def exits(ctx, I, L, f, R, o, where, t):
    if not R['new']:
        return
    N = ('in', ('v', R['new']))
    C = Chars(I, t, classes(B.W[t], ('end', ((0, 0),)), ('colon', ((58, 58),))))
    cut = False
    for p, s in segments(I):
        for n in ('_next_dfas', '_pushes'):
            for _, v in s.get(n, ()):
                ok, key = found(v)
                if not ok:
                    continue
                tx = textof(key)
                gt = equal(p, ('in', ('d', N)), 62)
                past = tx[1] if len(tx) == 2 else add(tx[0], -1) if n == '_pushes' else None
                if past is None:
                    # the whole text: there must be no colon in it, or the state would not be known
                    continue
                st = scan(I, C, p, past, {'end', 'colon'})
                ctx.check(st is not None and st == add(N, 1) and gt is True and C.tags(p, ('in', ('d', past))) == {'colon'}, 'exit',
                          o + ':split', where, 'the new state is split at %s (starts with >: %s)' % (show(past), gt))
                cut = True
    ctx.check(cut, 'exit', o + ':both', where, 'a state to go to and one to push are never told apart')
