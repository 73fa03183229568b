"""What basic_rules::push records, per overload: shared by C26 (features), C30 (rule data)."""
from common import *
from loops import Loops

THIS = ('v', 'this')
KEPT = {'narrow', 'tokenise', 'check_for_invalid_id', 'validate', 'error'}
FIELDS = ('_regexes', '_regex_strings', '_ids', '_user_ids', '_next_dfas', '_pushes', '_pops')


def pushes(F):
    fs = [f for f in F.fns.values() if f['n'] == 'push' and 'body' in f and f.get('cls', '').startswith('lexertl::basic_rules<')]
    if not fs:
        raise CheckError('no instantiation of basic_rules::push')
    return fs


def overload(f):
    return short(f['cls']) + '(' + ', '.join(p['n'].strip('_') for p in f['params']) + ')'


def isfield(P, name=None):
    """(field, index) of a place this.<field>[index]"""
    if P[0] == 'i' and P[1][0] == 'f' and P[1][1] == THIS and P[1][2] in FIELDS and (name is None or P[1][2] == name):
        return P[1][2], P[2]
    return None


def segments(I):
    """[(p, {field: [(index, value)]})] : everything recorded between two loop heads (or ends) of a partition"""
    out = []
    for p in I.paths:
        if p.end[0] not in ('ret', 'back'):
            continue
        cur = {}
        segs = [cur]
        for e in p.ev:
            if e[0] == 'loop':
                cur = {}
                segs.append(cur)
            elif e[0] == 'write' and isfield(e[1]) and isinstance(e[2], tuple) and e[2][0] == 'push':
                f, i = isfield(e[1])
                cur.setdefault(f, []).append((i, e[2][2]))
        out += [(p, s) for s in segs if s]
    return out


def complete(I, L, h, v):
    """v is the element a complete front to back traversal of some value stands at; returns that value"""
    d = L.desc.get(h)
    if not d or d['down']:
        return None
    s, b = d['start'], d['bound']
    n = add(b, s, -1)
    if not (isinstance(n, tuple) and n[0] == 'size'):
        return None
    x = n[1]
    if isinstance(s, tuple) and s[0] == 'begin':
        if v in (('in', ('d', d['phi'])), ('in', ('i', s[1], d['phi']))):
            return x
        return None
    if s == 0 and v == ('idx', x, d['phi']):
        return x
    return None


def roles(f):
    """parameters of a push overload by position: {'id','user','regex':[..],'curr','new'}"""
    ints = [p['n'] for p in f['params'] if bare(p['t']) in ('unsigned short', 'unsigned char', 'unsigned int', 'unsigned long')]
    strs = [p['n'] for p in f['params'] if '*' in p['t'] or 'basic_string' in p['t']]
    if not 1 <= len(strs) <= 4 or len(ints) > 2:
        raise CheckError('unknown overload of push: %s' % [p['t'] for p in f['params']])
    r = {'id': ints[0] if ints else None, 'user': ints[1] if len(ints) > 1 else None, 'curr': None, 'new': None, 'regex': strs}
    if len(strs) > 2:
        r.update(curr=strs[0], new=strs[-1], regex=strs[1:-1])
    return r


def truth(p, atom):
    """True / False / None : what partition p knows about an atom"""
    if isinstance(atom, bool):
        return atom
    if isinstance(atom[0], tuple):      # (atom, polarity) pair
        q = p.facts.query(atom[0])
        return None if q is None else q is atom[1]
    return p.facts.query(atom)


def equal(p, a, b):
    return truth(p, atom_eq(a, b))
