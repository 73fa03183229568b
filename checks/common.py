"""Helpers shared by the checks: interpreting driver wrappers and comparing final object states."""
from facts import CheckError, nodes, walk
from ir import Lower, bare
from ai import *


def short(t):
    for a, b in (('lexertl::', ''), ('__gnu_cxx::__normal_iterator<const char *, std::basic_string<char>>', 'string::const_iterator'),
                 ('std::basic_string', 'string'), ('unsigned short', 'u16'), ('unsigned char', 'u8'), ('const ', ''), ('detail::', '')):
        t = t.replace(a, b)
    return t.rstrip(' &')


def interp(ctx, F, f, inline=None, **kw):
    ctx.analysed(f)
    I = Interp(Lower(F, inline).lower(f), **kw)
    ctx.inlined(F, I.g)
    I.run()
    ctx.count('partitions', len(I.paths))
    return I


def wrappers(F, ns, name):
    r = [f for f in F.fns.values() if f['q'] == ns + '::' + name and 'body' in f]
    if not r:
        raise CheckError('analysis wrapper %s::%s not instantiated' % (ns, name))
    return r


def leaves(F, T, P, seen=()):
    """(place, type) of every scalar / library-class member of an object of type T at P"""
    r = F.recbyt.get(bare(T))
    if r is None:
        return [(P, T)]
    out = []
    for b in r.get('bases', []):
        out += leaves(F, b, P)
    for f in r['fields']:
        out += leaves(F, f['t'], ('f', P, f['n']))
    return out


def lname(P):
    s = []
    while P[0] in ('f', 'i'):
        s.append(P[2] if P[0] == 'f' else '[]')
        P = P[1]
    return '.'.join(reversed(s))


def renum(v, m):
    """rename result/havoc numbers in order of appearance"""
    if isinstance(v, tuple):
        if v and v[0] in ('hv', 'res', 'alloc') and len(v) > 1 and isinstance(v[1], int):
            return (v[0], m.setdefault(v[1], len(m))) + tuple(renum(x, m) for x in v[2:])
        return tuple(renum(x, m) for x in v)
    return v


def content(I, p, v):
    """addresses of local objects replaced by what the objects hold"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'addr' and v[1][0] == 'v' and '#' in v[1][1]:
            return ('obj', I.val(p, v[1]))
        return tuple(content(I, p, x) for x in v)
    return v


def eqleaves(F, T, P, ops):
    """members that take part in comparing objects of type T (a class without its own == is compared as its base)"""
    r = F.recbyt.get(bare(T))
    if r is None:
        return [(P, T)]
    if bare(T) not in ops and r.get('bases'):
        return eqleaves(F, r['bases'][0], P, ops)
    out = []
    for b in r.get('bases', []):
        out += eqleaves(F, b, P, ops)
    for f in r['fields']:
        out += eqleaves(F, f['t'], ('f', P, f['n']), ops)
    return out


def finals(I, leavs, ren, only='ret'):
    """set of final states (tuple of leaf values) over the normally returning partitions"""
    out = {}
    for p in I.paths:
        if p.end[0] != only:
            continue
        st = []
        for P, T in leavs:
            v = I.val(p, P)
            sz = I.size(v)
            q = atom_eq(sz, 0)
            if v != ('empty',) and 'std::' in T and (q is True or (not isinstance(q, bool) and p.facts.query(q[0]) is q[1])):
                v = ('empty',)
            st.append(v)
        st = subst(tuple(content(I, p, v) for v in st), ren)
        out[renum(st, {})] = p
    return out


def unhavoc(p, v):
    """a value some later call may have changed through a reference: what it was before that call"""
    pre = {e[1]: e[2] for e in p.ev if e[0] == 'pre'}
    while v in pre:
        v = pre[v]
    return v
