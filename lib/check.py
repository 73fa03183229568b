"""Check driver: obligations, known findings, evidence, exit codes."""
import json, os, sys, time, traceback, hashlib
from facts import CheckError, Facts, VERIF, REPO

KNOWN = os.path.join(VERIF, 'known_findings.txt')
_facts = {}


def facts(unit):
    if unit not in _facts:
        _facts[unit] = Facts(unit)
    return _facts[unit]


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl = []          # (rule, instance, ok, where, detail)
        self.counts = {}
        self.rules = {}
        self.assumptions = []
        self.units = set()
        self.fnset = set()
        self.t0 = time.time()

    def facts(self, unit):
        self.units.add(unit)
        return facts(unit)

    def rule(self, name, text, minimum=1):
        self.rules[name] = (text, minimum)

    def assume(self, *a):
        self.assumptions.extend(a)

    def analysed(self, fn):
        self.fnset.add('%s(%s)@%s:%s' % (fn['q'], ','.join(p['t'].replace('lexertl::', '') for p in fn['params']),
                                         os.path.basename(fn['file']), fn['l']))

    def inlined(self, F, g):
        for i in g.inlined:
            self.analysed(F.fns[i])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, rule, instance, where='', detail=''):
        self.obl.append((rule, instance, True, where, detail))

    def bad(self, rule, instance, where='', detail=''):
        self.obl.append((rule, instance, False, where, detail))

    def check(self, cond, rule, instance, where='', detail=''):
        (self.ok if cond else self.bad)(rule, instance, where, detail)
        return cond


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line[len('known: property=%s ' % pid):]
                key, _, what = rest.partition(' :: ')
                out[key.strip()] = what.strip()
    return out


def locstr(l):
    if isinstance(l, tuple) or isinstance(l, list):
        return '%s:%s (%s)' % (l[0], l[1], l[2])
    return str(l)


def main(pid, run, tier):
    ctx = Ctx(pid, tier)
    try:
        run(ctx)
        for r, (text, minimum) in ctx.rules.items():
            n = len({(o[1]) for o in ctx.obl if o[0] == r})
            if n < minimum:
                raise CheckError('rule %s matched %d instances, at least %d were confirmed by hand: analysis broken' % (r, n, minimum))
        for o in ctx.obl:
            if o[0] not in ctx.rules:
                raise CheckError('undeclared rule ' + o[0])
    except CheckError as e:
        # a rule that already failed is reported even if a later one cannot be decided
        if not any(not o[2] for o in ctx.obl):
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            return 2
        print('NOTE property=%s later analysis incomplete: %s' % (pid, e))
    except Exception:
        traceback.print_exc()
        if not any(not o[2] for o in ctx.obl):
            print('ANALYSIS-BROKEN property=%s internal error' % pid)
            return 2
    kn = known(pid)
    seen, viol, listed = set(), [], []
    for rule, inst, ok, where, detail in ctx.obl:
        if ok:
            continue
        key = '%s/%s' % (rule, inst)
        if key in seen:
            continue
        seen.add(key)
        if key in kn:
            listed.append((key, kn[key]))
        else:
            viol.append((key, where, detail))
    uniq = {}
    for rule, inst, ok, where, detail in ctx.obl:
        k = (rule, inst)
        uniq[k] = uniq.get(k, True) and ok
    per = {}
    for (rule, inst), ok in uniq.items():
        d = per.setdefault(rule, {'rule': ctx.rules.get(rule, ('',))[0], 'instances': 0, 'discharged': 0})
        d['instances'] += 1
        d['discharged'] += ok
    samples = ['%s/%s%s' % (r, i, (' @ ' + locstr(w)) if w else '') for (r, i, ok, w, d) in ctx.obl[:400:max(1, len(ctx.obl) // 12)]][:14]
    cov = {
        'explanation': 'Static analysis of the resolved program (clang AST of the instantiated library lowered to control-flow '
                       'graphs): every obligation below is decided from /repo/include as it is now, without executing it.',
        'obligations': len(uniq), 'discharged': sum(uniq.values()),
        'units': sorted(ctx.units), 'functions_analysed': len(ctx.fnset), 'functions': sorted(ctx.fnset)[:60],
        'rules': per, 'samples': samples, 'counts': ctx.counts,
        'known_findings': [k for k, _ in listed],
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', pid + '.json')
    tmp = path + '.tmp%d' % os.getpid()
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, path)
    print('property=%s tier=%s obligations=%d discharged=%d functions=%d wall=%.1fs'
          % (pid, tier, len(uniq), sum(uniq.values()), len(ctx.fnset), time.time() - ctx.t0))
    for k, what in listed:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, k, what))
    rep = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
    try:
        os.remove(rep)
    except OSError:
        pass
    if viol:
        with open(rep, 'w') as f:
            for key, where, detail in viol:
                f.write('%s\n  at %s\n  rule: %s\n  %s\n\n' % (key, locstr(where), ctx.rules.get(key.split('/')[0], ('',))[0],
                                                                 str(detail).replace('\n', '\n  ')))
        for key, where, detail in viol[:20]:
            print('  %s at %s: %s' % (key, locstr(where), str(detail).split('\n')[0][:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 0
