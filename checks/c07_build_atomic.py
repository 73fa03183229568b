"""C07: building either replaces the machine completely or leaves it as it was."""
from common import *
from atomic import Atomic, Effects


def run(ctx):
    ctx.rule('failed-build', 'on no path through a build does a throw, or a call that can throw, follow a write to the machine being built', 30)
    ctx.rule('replaced', 'every build that returns has replaced every member of the machine', 8)
    ctx.rule('old-contents', 'the previous contents of the machine are not read by a build', 8)
    ctx.assume('memory exhaustion is not a failed build', 'swap exchanges every member (C13)')
    F = ctx.facts('d_core')
    E = Effects(F)
    for f in F.find(name='build', clsname='basic_generator'):
        k = [i for i, p in enumerate(f['params']) if '&' in p['t'] and not p['t'].strip().startswith('const ')]
        if len(k) != 1:
            raise CheckError('build does not take exactly one output: ' + f['q'])
        T = f['params'][k[0]]['t'].rstrip(' &')
        name = short(T) + ' from ' + short(f['params'][1 - k[0]]['t'])
        takes = lambda g: any(p['t'].rstrip(' &') == T and '&' in p['t'] for p in g['params']) and g.get('cls') == f.get('cls')
        root = ('v', f['params'][k[0]]['n'])
        A = Atomic(F, f, root, takes, E, ctx)
        for (kind, loc), (ok, detail) in sorted(A.run().items(), key=repr):
            ctx.check(ok, 'failed-build', '%s:%s:%s' % (name, kind, loc[1]), loc, detail)
        where = '%s:%s' % (F.rel(f['file']), f['l'])
        rec = F.recbyt[bare(T)]
        every = fields(F, rec)
        exits = getattr(A, 'exits', set())
        if not exits:
            raise CheckError('no normal exit from ' + name)
        miss = {x for d in exits for x in every if '*' not in d and x not in d}
        ctx.check(not miss, 'replaced', name, where, 'members not written on some path: ' + ', '.join(sorted(miss)))
        rd = []

        def look(E, loc):
            if isinstance(E, tuple):
                if E and E[0] == 'ld' and A.reach(E[1]):
                    rd.append((loc, A.reach(E[1])))
                elif E and E[0] == 'm' and A.reach(E[2]):
                    rd.append((loc, A.reach(E[2])))
                for x in E:
                    look(x, loc)
        for b in A.g.blocks:
            for i in b.ins:
                if i[0] == 'asg' and i[1][0] == 'v' and i[1][1].startswith('swp#'):
                    continue  # first leg of an exchange
                for x in i[2:-1]:
                    look(x if isinstance(x, tuple) else tuple(x) if isinstance(x, list) else (), i[-1])
        ctx.check(not rd, 'old-contents', name, rd[0][0] if rd else where, 'reads %s of the machine being built' % (rd[0][1] if rd else ''))


def fields(F, rec):
    out = {f['n'] for f in rec['fields']}
    for b in rec.get('bases', []):
        r = F.recbyt.get(bare(b))
        if r:
            out |= fields(F, r)
    return out
