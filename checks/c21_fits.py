"""C21: numbers that do not fit the id type are refused, not wrapped."""
from common import *
from c30_priority import gname, uncast, NPOS
from c34_rows import calls, where_, flat, idtype
from c35_rejected import columns, rows
from c20_names import push_state

NARROW = ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'uint8_t', 'uint16_t', 'int8_t', 'int16_t')
BUILD = ('build_tree', 'build_dfa', 'check_zero_len', 'check_suppressed', 'regex_from_idx', 'create', 'add_states')


def run(ctx):
    ctx.rule('columns', 'a machine is refused exactly when it has more columns than its id type can number', 10)
    ctx.rule('rows', 'a machine is refused exactly when it has more rows than its id type can number', 10)
    ctx.rule('sets', 'a character set is numbered with the count of those before it, and refused if that is a number of a marker', 6)
    ctx.rule('states', 'a start state is refused exactly if it is new and its number would be npos', 5)
    ctx.rule('rules', 'rules are counted, recorded and looked up in a type wider than the id type', 20)
    F = ctx.facts('d_core')
    for f in F.fns.values():
        if 'body' not in f:
            continue
        n, c = f['n'], f.get('clsname')
        if c == 'basic_generator' and n == 'build_dfa':
            columns(ctx, F, f, 'columns')
        elif c == 'basic_generator' and n == 'build':
            I = interp(ctx, F, f, lambda g: g['n'] not in BUILD)
            rows(ctx, F, f, I, 'rows')
            built(ctx, F, f, I)
        elif c == 'basic_parser' and n == 'lookup':
            sets(ctx, F, f)
        elif c == 'basic_generator' and n == 'build_tree':
            counted(ctx, F, f)
        elif c == 'basic_parser' and n == 'parse' and len(f['params']) > 4:
            recorded(ctx, F, f)
        elif c == 'basic_generator' and n in ('closure_ex', 'check_suppressed'):
            used(ctx, F, f)
        elif c == 'basic_node' and n == 'unique_id':
            wide(ctx, f['rt'], gname(f) + ': rule of an end', where_(f))
    states(ctx, F)
    ctx.assume('lists held in memory are counted in std::size_t without overflow')


class Only:
    """passes on the obligations of one rule"""
    def __init__(self, ctx, rule, name):
        self.ctx, self.rule, self.name = ctx, rule, name

    def check(self, ok, rule, *a):
        return self.ctx.check(ok, self.name, *a) if rule == self.rule else ok

    def bad(self, rule, *a):
        if rule == self.rule:
            self.ctx.bad(self.name, *a)

    def __getattr__(self, n):
        return getattr(self.ctx, n)


def states(ctx, F):
    for f in F.fns.values():
        if 'body' in f and f.get('clsname') == 'basic_rules' and f['n'] == 'push_state':
            push_state(Only(ctx, 'full', 'states'), F, f)


def bare_(t):
    for w in ('const ', 'std::', '&', '*'):
        t = t.replace(w, '')
    return t.strip()


def narrow(t):
    t = bare_(t)
    if t.startswith('set<'):
        t = t[4:].split(',')[0].rstrip('> ')
    return t in NARROW or t.endswith('id_type')


def wide(ctx, t, inst, where):
    ctx.check(not narrow(t), 'rules', inst, where, 'held in ' + t)


def cut(v, leaf):
    """is leaf cut to a narrow type within v?"""
    return any(isinstance(t, tuple) and len(t) == 3 and t[0] == 'cast' and narrow(t[1]) and leaf in flat(t) for t in flat(v))


def built(ctx, F, f, I):
    """the count handed to build_tree lives in a wide variable"""
    o = gname(f)
    for n in ('build_tree', 'build_dfa', 'check_suppressed'):
        for g in F.fns.values():
            if g['n'] == n and g.get('cls') == f.get('cls') and 'body' in g:
                for q in g['params']:
                    k = role(n, q)
                    if k:
                        wide(ctx, q['t'], '%s: %s of %s' % (o, k, n), where_(g))


def role(n, q):
    t = q['t']
    if 'std::set<' in t and 'node' not in t:
        return 'used rules'
    if n == 'check_suppressed' and 'basic_' not in t:
        return 'number of rules'
    if n == 'build_tree' and t.endswith('&') and 'std::' not in t and q is not None:
        return None
    return None


def counted(ctx, F, f):
    o = gname(f)
    where = where_(f)
    U = [q for q in f['params'] if q['t'].endswith('&') and not q['t'].startswith('const') and ('unsigned' in q['t'] or 'size_t' in q['t']) and 'std::map' not in q['t'] and 'vector' not in q['t']]
    # the counter is the last of the numbers given by reference
    wide(ctx, U[-1]['t'], o + ': count', where)
    P = ('in', ('v', U[-1]['n']))
    I = interp(ctx, F, f, lambda g: g['n'] != 'parse' and g.get('clsname') != 'basic_parser')
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        for e in calls(p, 'parse'):
            for a in e[3]:
                if not isinstance(a, tuple):
                    continue
                for t in flat(a):
                    if isinstance(t, tuple) and len(t) == 3 and t[0] == 'phi' and t[2] == ('v', U[-1]['n']) or t == P:
                        ctx.check(not cut(a, t), 'rules', o + ': given', where, 'the number of a rule is cut: %s\n%s' % (show(a), showpath(p)))


def recorded(ctx, F, f):
    o = gname(f)
    where = where_(f)
    I = interp(ctx, F, f, lambda g: g.get('clsname') == f.get('clsname') and False)
    # the parameter that is not an id: the one the end node answers with unique_id()
    ends = [g for g in F.fns.values() if g['n'] == 'unique_id' and g.get('clsname') == 'basic_end_node' and 'body' in g]
    ends = [g for g in ends if idof(g) == idof(f)]
    ctx.check(bool(ends), 'rules', o + ': end', where, 'an end does not know its rule')
    for g in ends:
        wide(ctx, g['rt'], o + ': answer of an end', where_(g))
        J = interp(ctx, F, g, lambda h: False)
        for p in J.paths:
            ctx.check(not any(t[0] == 'cast' and narrow(t[1]) for t in flat(p.ret) if isinstance(t, tuple) and len(t) == 3), 'rules', o + ': answer of an end, whole', where_(g), show(p.ret))
        fields = {t[2] for p in J.paths for t in flat(p.ret) if isinstance(t, tuple) and len(t) == 3 and t[0] == 'f' and t[1] == ('v', 'this')}
        r = F.recbyt.get(bare(g['cls'])) if isinstance(g.get('cls'), str) else None
        for d in (r or {}).get('fields', []):
            if d['n'] in fields:
                wide(ctx, d['t'], o + ': held by an end', where_(g))
        # constructors fill that field from a wide parameter
        for c in F.fns.values():
            if c.get('cls') == g.get('cls') and c['n'] == 'basic_end_node' and 'body' in c and len(c['params']) > 2:
                K = interp(ctx, F, c, lambda h: False)
                for p in K.paths:
                    for e in p.ev:
                        if e[0] == 'write' and e[1][0] == 'f' and e[1][2] in fields:
                            ctx.check(not any(isinstance(t, tuple) and len(t) == 3 and t[0] == 'cast' and narrow(t[1]) for t in flat(e[2])), 'rules', o + ': end made', where_(c), show(e[2]))
                            for t in flat(e[2]):
                                if isinstance(t, tuple) and t[0] == 'in' and t[1][0] == 'v':
                                    q = [x for x in c['params'] if x['n'] == t[1][1]]
                                    if q:
                                        wide(ctx, q[0]['t'], o + ': end given', where_(c))
                                        k = [x['n'] for x in c['params']].index(t[1][1])
                                        chain(ctx, F, f, I, k, o, where)


def idof(f):
    s = str(f.get('cls')) + ' ' + f['q']
    return 'u8' if 'unsigned char' in s or 'uint8_t' in s else 'u16'


def chain(ctx, F, f, I, k, o, where):
    """what parse() hands to the end node at parameter k"""
    n = 0
    for p in I.paths:
        for e in p.ev:
            for t in flat(tuple(x for x in e if isinstance(x, tuple))):
                if isinstance(t, tuple) and len(t) == 4 and t[0] in ('alloc',) and 'end_node' in str(t[2]) and len(t[3]) > k:
                    n += 1
                    a = t[3][k]
                    ctx.check(not any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'cast' and narrow(x[1]) for x in flat(a)), 'rules', o + ': recorded', where, show(a))
                    for x in flat(a):
                        if isinstance(x, tuple) and x[0] == 'in' and x[1][0] == 'v':
                            q = [y for y in f['params'] if y['n'] == x[1][1]]
                            if q:
                                wide(ctx, q[0]['t'], o + ': received', where)
    ctx.check(n > 0, 'rules', o + ': ends', where, 'no end is made')


def used(ctx, F, f):
    o = gname(f)
    for q in f['params']:
        k = role(f['n'], q)
        if k:
            wide(ctx, q['t'], '%s: %s in %s' % (o, k, f['n']), where_(f))
    I = interp(ctx, F, f, lambda g: g['n'] not in BUILD)
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        for e in p.ev:
            if e[0] != 'call' or e[1]['n'] not in ('insert', 'emplace', 'find', 'count'):
                continue
            for t in flat(e[3]):
                if isinstance(t, tuple) and len(t) == 4 and t[0] == 'm' and t[1] == 'unique_id':
                    ctx.check(not cut(e[3], t), 'rules', o + ': noted', where_(f), 'the number of a rule is cut\n' + showpath(p))
        for a in p.facts.atoms:
            for q in f['params']:
                if role(f['n'], q):
                    ctx.check(not cut(a, ('in', ('v', q['n']))), 'rules', o + ': counted up to', where_(f), 'the number of rules is cut\n' + showpath(p))
            for t in flat(a):
                if isinstance(t, tuple) and len(t) == 4 and t[0] == 'm' and t[1] in ('find', 'count') and any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'cast' and narrow(x[1]) for x in flat(t[3])):
                    ctx.bad('rules', o + ': looked up', where_(f), 'the number of a rule is cut\n' + showpath(p))


def sets(ctx, F, f):
    o = gname(f)
    where = where_(f)
    top = NPOS[f['rt']]
    M = ('f', ('v', 'this'), '_charset_map')
    I = Interp(Lower(F, lambda g: g['n'] != 'find', allcalls=True).lower(f))
    ctx.analysed(f)
    I.run()
    sz = ('size', ('in', M))
    kinds = set()
    for p in I.paths:
        if p.end[0] == 'unreach':
            continue
        ins = [e for e in p.ev if e[0] == 'call' and e[2] == M and e[1]['n'] in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'operator[]')]
        ms = [t for t in flat(p.ret if p.end[0] == 'ret' else ()) if t == sz]
        for k in (0, 1, 100, top - 4, top - 3, top - 2, top - 1, top, top + 1):
            if not possible(p, sz, k):
                continue
            if p.end[0] == 'throw':
                ctx.check(k >= top - 2, 'sets', o + ': refused', where, 'refused after %d sets\n%s' % (k, showpath(p)))
                kinds.add('refused')
            elif ins:
                kinds.add('new')
                ctx.check(k < top - 2, 'sets', o + ': kept', where, 'set number %d is kept\n%s' % (k, showpath(p)))
        if p.end[0] == 'ret' and ins:
            ok = uncast(p.ret) == sz or 'second' in str(p.ret)
            a = ins[0][3]
            if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'new':
                a = a[0][2]
            ctx.check(ok and len(a) == 2 and uncast(a[1]) == sz, 'sets', o + ': number', where, 'numbered %s\n%s' % (show(p.ret), showpath(p)))
        elif p.end[0] == 'ret':
            kinds.add('old')
            ctx.check('second' in str(p.ret), 'sets', o + ': known', where, 'a known set is given number %s' % show(p.ret))
    ctx.check({'new', 'old'} <= kinds, 'sets', o + ': outcomes', where, str(kinds))


def possible(p, sz, k):
    from evalx import consistent
    return consistent(p, {sz: k})
