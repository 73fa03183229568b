"""C12: machines and rules handed over for reading are never written, and nothing is shared behind the caller's back."""
from common import *
from lookup_common import analyse, isinput

UNITS = ('d_core', 'd_utf', 'd_io', 'd_gencpp', 'd_debug')
READERS = {'lookup', 'save', 'sm_to_csm', 'replace', 'build', 'dump', 'generate_cpp', 'generate', 'build_macro'}
MACHINES = ('basic_state_machine<', 'basic_char_state_machine<', 'basic_rules<')
GLOBALS = {'setlocale', 'global', 'srand', 'rand', 'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'setenv', 'putenv', 'getenv',
           'sync_with_stdio', 'tmpnam', 'strerror', 'set_terminate'}


def machine(t):
    t = bare(t)
    return t.startswith(tuple('lexertl::' + m for m in MACHINES)) and '::' not in t.split('>')[-1]


def run(ctx):
    ctx.rule('parameter', 'every function that only reads a machine or rules takes it as const, or uses it only through '
             'const members and functions that do', 30)
    ctx.rule('lookup-writes', 'a scan writes only the results object and its own locals', 12)
    ctx.rule('no-shared-state', 'no variable of static storage duration in the library can be written', 12)
    ctx.rule('no-mutable', 'no data member of a library class is mutable', 30)
    ctx.rule('deep-const', 'machines, rules and what they contain own their data: no member is a pointer or reference through which a '
             'const object could be written or shared between copies', 30)
    ctx.rule('no-const-cast', 'no cast removes const from something that is then written', 5)
    ctx.rule('no-global-effects', 'no call changes or depends on process-wide mutable state', 5)
    ctx.assume('the C++ type system: an object is not written through a const lvalue', 'const operations of standard containers do not race')
    for u in UNITS:
        F = ctx.facts(u)
        params(ctx, F)
        state(ctx, F, u)
        casts(ctx, F, u)
    for t, f, sm, res, I in analyse(ctx):
        n = 0
        for p in I.paths:
            for e in p.ev:
                P = e[1] if e[0] == 'write' else e[2] if e[0] == 'call' and e[1]['kind'] == 'mut' else None
                if P is None or is_local(P):
                    continue
                n += 1
                Q = P
                while Q[0] in ('f', 'i'):
                    Q = Q[1]
                ctx.check(Q == res, 'lookup-writes', '%s:%s' % (t, show(P)), e[3] if e[0] == 'write' else e[5], '%s written during a scan' % show(P))
        if not n:
            raise CheckError('no writes seen in ' + t)


def params(ctx, F):
    for f in F.fns.values():
        if f['n'] not in READERS or not f['q'].startswith('lexertl::') or f.get('cls', '').startswith('lexertl::basic_rules'):
            continue
        ctx.analysed(f)
        for k, p in enumerate(f['params']):
            if not machine(p['t']):
                continue
            # the machine being built is an output
            if f['n'] in ('build', 'sm_to_csm') and 'rules' not in p['t'] and k == len(f['params']) - 1:
                continue
            if f['n'] == 'build' and 'rules' not in p['t']:
                continue
            ok = p['t'].strip().startswith('const ') or not (p.get('isref') or '*' in p['t'] or '&' in p['t'])
            ok = ok or readonly(F, f, p, set())
            ctx.check(ok, 'parameter', '%s(%s)' % (f['q'], short(p['t'])), f['q'], 'takes a writable %s and may change it' % p['t'])


def readonly(F, f, par, seen):
    """a parameter passed by writable reference is used through const members and const reference parameters only"""
    if (f['id'], par['d']) in seen:
        return True
    seen.add((f['id'], par['d']))
    uses = []

    def go(n, up):
        if isinstance(n, dict):
            if n.get('k') == 'ref' and n.get('d') == par['d']:
                uses.append((n, up))
            if 'k' in n:
                up = n
            for v in n.values():
                go(v, up)
        elif isinstance(n, list):
            for v in n:
                go(v, up)
    go(f.get('body'), None)
    for n, up in uses:
        if up is None or up['k'] not in ('call', 'op', 'ctor'):
            return False
        if up.get('obj') is n:
            if not up.get('const'):
                return False
            continue
        k = next((i for i, a in enumerate(up.get('a', [])) if a is n), None)
        pt = up.get('pt', [])
        if k is None or k >= len(pt):
            return False
        if pt[k].startswith('const ') or '&' not in pt[k]:
            continue
        g = F.fns.get(up.get('fn'))
        if g is None or 'body' not in g or not readonly(F, g, g['params'][k], seen):
            return False
    return True


def state(ctx, F, u):
    for g in F.globals:
        if not g['q'].startswith('vd') :
            ctx.check(g.get('isconst', False), 'no-shared-state', g['q'] + ':' + short(g['t']), '%s:%s' % (F.rel(g['file']), g.get('l')), 'variable of type %s lives across calls' % g['t'])
    reach = set()

    def visit(t):
        for r in F.records:
            if r['t'] in t and r['t'] not in reach:
                reach.add(r['t'])
                for f in r['fields']:
                    visit(f['t'])
    for r in F.records:
        if machine(r['t']) or 'basic_internals' in r['t'].split('<')[0]:
            visit(r['t'])
    for r in F.records:
        if not r['t'].startswith('lexertl::'):
            continue
        for f in r['fields']:
            ctx.check(not f.get('mutable'), 'no-mutable', short(r['t']) + '.' + f['n'], r['t'], 'mutable member')
            if r['t'] in reach:
                own = '*' not in f['t'] and '&' not in f['t'] and 'shared_ptr' not in f['t'] and 'unique_ptr' not in f['t'] and 'reference_wrapper' not in f['t'] and 'weak_ptr' not in f['t']
                ctx.check(own, 'deep-const', short(r['t']) + '.' + f['n'], r['t'], 'member of type ' + f['t'])


def pointee_const(t):
    t = (t or '').strip()
    if not t or t[-1] not in '*&':
        return None
    return t.startswith('const ') or t[:-1].rstrip().endswith('const')


def casts(ctx, F, u):
    n = bad = 0
    for f in F.fns.values():
        if not f['q'].startswith('lexertl::') or 'body' not in f:
            continue
        par = None
        calls = []
        for x in nodes(f['body']):
            if x['k'] in ('call', 'mcall', 'op') or 'fn' in x or x.get('q'):
                nm = x.get('n')
                q = x.get('q', '') or ''
                if nm in GLOBALS and (q == nm or q.startswith(('std::', '::'))) and not q.startswith('lexertl'):
                    ctx.bad('no-global-effects', '%s:%s' % (f['q'], nm), '%s:%s' % (F.rel(f['file']), x.get('l')), 'uses ' + q)
            if x['k'] != 'cast' or x['ck'] == 'implicit':
                continue
            n += 1
            src, dst = x['e'].get('t', ''), x['t']
            drops = x['ck'] == 'const' or (pointee_const(dst) is False and pointee_const(src) is True)
            if drops:
                # passing the address to the system call that releases the mapping writes nothing of ours
                ok = f.get('clsname') == 'basic_memory_file' and all('munmap' == (c.get('n') or '') for c in nodes(f['body'], 'call') if any(y is x for y in nodes(c)))
                inside = any(any(y is x for y in nodes(c)) for c in nodes(f['body'], 'call'))
                ctx.check(ok and inside, 'no-const-cast', '%s:%s' % (short(f['q']), dst), '%s:%s' % (F.rel(f['file']), x.get('l')), 'const removed: %s -> %s' % (src, dst))
    ctx.count('explicit casts', n)
    ctx.ok('no-const-cast', u + ':casts')
    ctx.ok('no-global-effects', u + ':calls')


