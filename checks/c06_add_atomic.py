"""C06: an addition that is rejected leaves the rules object as it was."""
from common import *
from atomic import Atomic, Effects


def run(ctx):
    ctx.rule('rejected-add', 'on no path of a rule, macro or start state addition does a throw, or a call that can throw, follow a write to a '
             'member of the rules object (a repeat of a call that already succeeded on unchanged input excepted)', 20)
    ctx.rule('adder', 'every public operation that changes the rules object is covered', 20)
    ctx.assume('memory exhaustion is not a rejection')
    F = ctx.facts('d_core')
    E = Effects(F)
    n = 0
    for cls in sorted({f['cls'] for f in F.fns.values() if f.get('clsname') == 'basic_rules' and 'body' in f}):
        ms = [f for f in F.fns.values() if f.get('cls') == cls and 'body' in f and not f.get('mk') and not f.get('static') and not f.get('const')]
        touches = {f['id'] for f in ms if E.writes(f['id'])}
        for f in ms:
            if f.get('acc') not in (None, 'public', 0) or f['id'] not in touches or not any(text(p['t']) for p in f['params']):
                continue
            # methods that write are followed into; so are the small checks, which makes a repeated check visible as such
            A = Atomic(F, f, ('v', 'this'), lambda g: g['id'] in touches, E, ctx)
            res = A.run()
            name = '%s::%s(%s)' % (short(cls), f['n'], ','.join(short(p['t']) for p in f['params']))
            if not res:
                raise CheckError('no raising point found in ' + name)
            ctx.ok('adder', name, '%s:%s' % (F.rel(f['file']), f['l']), 'writes ' + ', '.join(sorted(A.writes)))
            for (kind, loc), (ok, detail) in sorted(res.items(), key=repr):
                n += 1
                ctx.check(ok, 'rejected-add', '%s:%s:%s' % (name, kind, loc[1]), loc, detail)
    ctx.count('raising points', n)


def text(t):
    return '*' in t or 'basic_string' in t
