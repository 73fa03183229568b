"""C01: \\p{name} is exactly the set the Unicode Character Database gives that name; no other name is accepted."""
from common import *
from strmatch import *
from charset_text import unicode_sets, parse, ranges


def run(ctx):
    ctx.rule('set', 'the character set returned for a property name equals the code points of the Unicode Character Database', 5 * 557)
    ctx.rule('names', 'the table of names holds every general category, block and script name once and nothing else', 7)
    ctx.rule('lookup', 'a set is returned only from the table entry whose name is equal, as a whole, to the text between the braces', 7)
    ctx.rule('search', 'the search starts at the first table entry, goes on to the next one, and gives up (throws) only at the table\'s end', 7)
    ctx.rule('consumed', 'after \\p{name} scanning goes on behind the closing brace', 7)
    ctx.assume('the set literals are read by the tokeniser\'s own character set rules (C03, C25)')
    F = ctx.facts('d_core')
    want = unicode_sets()
    memo = {}

    for f in F.find(name='unicode_escape', clsname='basic_re_tokeniser_helper'):
        ctx.analysed(f)
        G = [g for g in F.globals if any(n.get('d') == g['d'] for n in nodes(f['body'], 'ref')) and 'block' in g['t']]
        if len(G) != 1:
            raise CheckError('no table of property names in ' + f['q'])
        G = G[0]
        who = short(f['cls']) + '/' + short(f['params'][0]['t'])
        table, order = {}, []
        ents = G['i']['a']
        for n, e in enumerate(ents):
            nm, fn = unwrap(e['a'][0]), unwrap(e['a'][1])
            if nm['k'] != 'str':
                if n != len(ents) - 1:
                    ctx.bad('search', who + ':sentinel', '%s:%s' % (F.rel(G['file']), e['l']), 'the table ends early, at entry %d of %d' % (n, len(ents)))
                continue
            name = ''.join(map(chr, nm['v']))
            g = F.fns.get(fn.get('d')) if fn['k'] == 'ref' else None
            if g is None or 'body' not in g:
                raise CheckError('entry %s of the property table has no function' % name)
            table[name] = g
            order.append(name)
        if unwrap(ents[-1]['a'][0])['k'] == 'str':
            ctx.bad('search', who + ':sentinel', '%s:%s' % (F.rel(G['file']), G['l']), 'the table has no end marker')
        miss = sorted(set(want) - set(order))
        extra = sorted(set(order) - set(want))
        dup = sorted({n for n in order if order.count(n) > 1})
        ctx.check(not (miss or extra or dup), 'names', who, '%s:%s' % (F.rel(G['file']), G['l']),
                  'missing %s, unknown %s, twice %s' % (miss[:5], extra[:5], dup[:5]))

        def text(g):
            ctx.analysed(g)
            r = nodes(g['body'], 'return')
            e = unwrap(r[0]['e']) if len(r) == 1 else None
            if e is None or e['k'] != 'str':
                raise CheckError('%s does not return a literal' % g['q'])
            return tuple(e['v'])

        def mask(g):
            t = text(g)
            if t not in memo:
                memo[t] = parse(t, lambda n: mask(table[n]))
            return memo[t]
        for name in order:
            if name not in want:
                continue
            g = table[name]
            m = mask(g)
            ctx.check(m == want[name], 'set', '%s:%s' % (short(f['cls']), name), '%s:%s (%s)' % (F.rel(g['file']), g['l'], g['n']),
                      'missing %s; extra %s' % (ranges(want[name] & ~m), ranges(m & ~want[name])))
        decide_lookup(ctx, F, f, who, G)


def unwrap(e):
    while e['k'] in ('cast', 'paren', 'addrof', 'un', 'decay', 'init') and (e.get('e') or (e.get('a') and len(e['a']) == 1)):
        e = e.get('e') or e['a'][0]
    return e


def decide_lookup(ctx, F, f, who, G):
    skip = {'error', 'unexpected_end', 'narrow'}
    I = interp(ctx, F, f, lambda g: g['n'] not in skip)
    S = StepLoops(I)
    where = '%s:%s (%s)' % (F.rel(f['file']), f['l'], f['n'])
    st = ('v', f['params'][0]['n'])
    cur = ('f', st, '_curr')
    c0 = ('in', cur)
    n = 0
    for p in I.paths:
        if p.end[0] != 'ret' or p.ret == 0:
            continue
        calls = [e for e in p.ev if e[0] == 'call' and e[1]['kind'] == 'indirect']
        src = [e for e in calls if e[4] == p.ret]
        if len(src) != 1 or len(calls) != 1:
            raise CheckError('%s returns something that is not a table entry\'s set' % f['q'])
        tgt = src[0][7]
        if not (isinstance(tgt, tuple) and tgt[0] == 'in' and tgt[1][0] == 'f' and tgt[1][2] == '_func'):
            raise CheckError('%s calls something that is not a table entry' % f['q'])
        ent = tgt[1][1]
        n += 1
        # the entry is what a loop over the table stands at
        h = walkloop(I, ent, G)
        ctx.check(h is not None, 'search', who, where, 'the entry used is not one a walk over the whole table stands at')
        end = I.val(p, cur)
        close = p.facts.query(('eq', ((elem(end), 1),), -125)) is True
        start = add(c0, 2)
        brace = p.facts.query(('eq', ((elem(add(c0, 1)), 1),), -123)) is True
        same = False
        for hh in S.loops:
            if hh not in p.ents:
                continue
            for s in S.loops[hh]:
                nm = S.partner(hh, s)
                if S.entry(p, hh, s) == start and S.entry(p, hh, nm) == ('in', ('f', ent, '_name')):
                    a = p.facts.query(atom_eq(end, s)[0])
                    same = same or (a is True and p.facts.query(('eq', ((elem(nm), 1),), 0)) is True)
        ctx.check(same and close and brace, 'lookup', who, src[0][5] or where, 'an entry is used although its name was not compared as a whole with '
                  'the text between { and }' if not same else 'the text looked up is not the one between { and }')
    if not n:
        raise CheckError('%s never returns a set' % f['q'])
    # escape_sequence steps over the brace
    for g in F.find(name='escape_sequence'):
        if g.get('cls') != f['cls'] or g['params'][0]['t'] != f['params'][0]['t']:
            continue
        J = interp(ctx, F, g, lambda x: x['n'] not in skip | {'unicode_escape', 'chr'})
        cur2 = ('f', ('v', g['params'][0]['n']), '_curr')
        seen = 0
        for p in J.paths:
            if p.end[0] != 'ret' or p.ret == 0 or p.facts.query(('eq', ((p.ret, 1),), 0)) is True:
                continue
            k = [e for e in p.ev if e[0] == 'call' and e[1]['n'] == 'unicode_escape']
            if not k:
                continue
            seen += 1
            after = [e for e in p.ev[p.ev.index(k[-1]):] if e[0] == 'write' and e[1] == cur2]
            ok = p.ret == k[-1][4] and len(after) == 1 and add(after[0][2], ('hv', nth(k[-1]), ('f', ('v', g['params'][0]['n']), '_curr')), -1) == 1
            ctx.check(ok, 'consumed', who, '%s:%s (%s)' % (F.rel(g['file']), g['l'], g['n']), 'position after the brace: %s' % show(J.val(p, cur2)))
        if not seen:
            raise CheckError('%s never returns a property set' % g['q'])


def nth(e):
    return e[4][1]


def elem(v):
    return ('in', ('d', v))


def walkloop(I, ent, G):
    """number of the loop over the table G that stands at ent: from its first entry, one entry a round, left without a result only at the end marker"""
    if ent[0] == 'd' and isinstance(ent[1], tuple) and ent[1][0] == 'phi':
        f = ent[1]
    elif ent[0] == 'i' and isinstance(ent[2], tuple) and ent[2][0] == 'phi':
        f = ent[2]
    else:
        return None
    h = f[1]
    for p in I.paths:
        for e in p.ev:
            if e[0] == 'loop' and e[1] == h:
                v = [e[2][P] for P in e[2] if ('phi', h, P) == f or P == f[2]]
                if not v or not atfirst(v[0], G):
                    return None
        if p.end == ('back', h) and add(p.ret.get(f[2], 0), f, -1) != 1:
            return None
        # a path that leaves the search without a result has seen the end marker
        if h in p.ents and p.end[0] in ('throw', 'ret') and not any(e[0] == 'call' and e[1]['kind'] == 'indirect' for e in p.ev):
            nm = ('in', ('f', ent, '_name'))
            size = len(G['i']['a'])
            past = [e for e in p.ev if e[0] == 'dec' and contains(e[1], lambda x: x == f) and not contains(e[1], lambda x: x == nm)]
            if p.facts.query(('eq', ((nm, 1),), 0)) is not True and not any(size in (abs(e[1][2]), abs(e[1][2]) + 1) or contains(
                    e[1], lambda x: isinstance(x, tuple) and x and x[0] in ('size', 'm')) for e in past):
                return None
    return h


def atfirst(v, G):
    if v == 0:
        return True
    t, c = lin(v)
    return c == 0 and len(t) == 1 and contains(v, lambda x: x == G['n'] or (isinstance(x, tuple) and x and x[0] == 'g'))
