"""C09: lexing never reads or steps past the end of the input."""
from lookup_common import *


def run(ctx):
    ctx.rule('read-guarded', 'every dereference of an input position is preceded, on every partition, by the assumption that this '
             'very position differs from the end of input', 12)
    ctx.rule('step-guarded', 'every advance of an input position happens only where that position was found different from the end', 12)
    ctx.rule('result-ends', 'the end-of-input result is produced only on partitions where the position equals the end of input', 12)
    ctx.assume('iterators are only compared and incremented (no aliasing between the input and the results object)',
               'arithmetic on positions does not wrap')
    for t, f, sm, res, I in analyse(ctx):
        seeds = inputs(I, res)
        eoi = ('in', ('f', res, 'eoi'))
        for p in I.paths:
            fs = Facts_()
            for e in p.ev:
                if e[0] == 'dec':
                    fs.assume(e[1], e[2])
                elif e[0] == 'read' and e[1][0] == 'd' and isinput(e[1][1], seeds):
                    judge(ctx, I, p, fs, e[1][1], eoi, 'read-guarded', t, e[3], 'dereference')
                elif e[0] == 'asg' and isinput(e[2], seeds) and e[2][0] == 'lin':
                    k = e[2][2]
                    if k < 0 or len(e[2][1]) != 1:
                        ctx.bad('step-guarded', '%s:%s' % (t, e[3][2]), e[3], 'position moved by ' + show(e[2]))
                        continue
                    for i in range(k):
                        judge(ctx, I, p, fs, add(e[2], i + 1, -1), eoi, 'step-guarded', t, e[3], 'advance')
            if p.end[0] == 'ret':
                idv = I.val(p, ('f', res, 'id'))
                if idv == ('in', ('f', ('f', sm, '_internals'), '_eoi')):
                    ok = any(a[0] == 'eq' and pol and any(t_ == eoi for t_, _ in a[1]) for a, pol in p.decisions())
                    ctx.check(ok, 'result-ends', '%s' % t, f['n'], showpath(p))


def judge(ctx, I, p, fs, v, eoi, rule, t, loc, what):
    w = I.resolve(p, v, fs)
    r = atom_eq(w, eoi)
    q = r if isinstance(r, bool) else fs.query(r[0])
    ok = q is False if isinstance(r, bool) else (q is not None and q != r[1])
    ctx.check(ok, rule, '%s:%s:%s' % (t, loc[2], what), loc, '%s of %s not known to differ from the end of input\n%s'
              % (what, show(v), showpath(p) if not ok else ''))
