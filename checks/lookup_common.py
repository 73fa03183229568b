"""Shared analysis of every lookup instantiation: its abstract transition relation."""
from facts import CheckError
from ir import Lower
from ai import *

_cache = {}


def instances(ctx):
    out = []
    for unit in ('d_core', 'd_u16'):
        F = ctx.facts(unit)
        out += [(F, f) for f in F.fns.values() if f['n'] == 'lookup' and 'body' in f and f.get('cls', '') == '' and f['q'] == 'lexertl::lookup']
    if len(out) < 10:
        raise CheckError('only %d lookup instantiations resolved' % len(out))
    return out


def analyse(ctx):
    """-> list of (name, fn, sm, res, Interp)"""
    if 'x' in _cache:
        return _cache['x']
    out = []
    for F, f in instances(ctx):
        ctx.analysed(f)
        I = Interp(Lower(F).lower(f), derefs=True)
        ctx.inlined(F, I.g)
        I.run()
        sm, res = ('v', f['params'][0]['n']), ('v', f['params'][1]['n'])
        t = f['params'][1]['t'].replace('lexertl::', '').rstrip(' &')
        st = f['params'][0]['t']
        out.append((t, f, sm, res, I))
        ctx.count('partitions', len(I.paths))
    _cache['x'] = out
    return out


def inputs(I, res, names=('second', 'first', 'eoi')):
    """terms that denote positions in the input"""
    seeds = {('in', ('f', res, n)) for n in names}
    changed = True
    while changed:
        changed = False
        for p in I.paths:
            for e in p.ev:
                if e[0] == 'loop':
                    h = e[1]
                    b = [x for x, n in I.hnum.items() if n == h][0]
                    for P, v in e[2].items():
                        t = ('phi', h, I.classes[b][P])
                        if t not in seeds and isinput(v, seeds):
                            seeds.add(t)
                            changed = True
    return seeds


def isinput(v, seeds):
    if isinstance(v, int):
        return False
    if v in seeds:
        return True
    if v[0] == 'lin':
        return len([1 for t, n in v[1] if t in seeds and n == 1]) == 1 and not any(t in seeds and n != 1 for t, n in v[1])
    return False
