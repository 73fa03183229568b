"""Evaluate an extracted expression or fact over concrete values of its leaves (no code of /repo is run)."""
from ai import lin

OPS = {'&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b, '+': lambda a, b: a + b, '-': lambda a, b: a - b,
       '*': lambda a, b: a * b, '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b,
       '/': lambda a, b: a % (1 << 64) // b if b else None, '%': lambda a, b: a % b if b else None}
W = {'bool': 1, 'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64, 'char32_t': 32}


def value(v, env):
    """concrete value of v, or None if it depends on something not in env"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if v in env:
        return env[v]
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == 'cast':
        x = value(v[2], env)
        if x is None:
            return None
        t = v[1].replace('const ', '').strip()
        if t == 'bool':
            return int(x != 0)
        return x & ((1 << W[t]) - 1) if t in W else x
    if v[0] == 'op' and len(v) == 4 and v[1] in OPS:
        a, b = value(v[2], env), value(v[3], env)
        return None if a is None or b is None else OPS[v[1]](a, b)
    if v[0] == 'op' and v[1] == '~':
        a = value(v[2], env)
        return None if a is None else ~a
    if v[0] == 'cmp':
        x = fact(v[1], env)
        return None if x is None else int(x == v[2])
    if v[0] == 'lin':
        t, c = lin(v)
        for k, n in t.items():
            x = value(k, env)
            if x is None:
                return None
            c += n * x
        return c
    return None


def fact(atom, env):
    """truth of an atom, or None"""
    if isinstance(atom, bool):
        return atom
    if atom[0] not in ('eq', 'lt'):
        return None
    s = atom[2]
    for k, n in atom[1]:
        x = value(k, env)
        if x is None:
            return None
        s += n * x
    return s == 0 if atom[0] == 'eq' else s < 0


def consistent(p, env):
    """no fact of partition p that env decides is contradicted by it"""
    return all(fact(a, env) in (None, pol) for a, pol in p.facts.atoms.items())


def leaves_of(v, pred, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if v and pred(v):
            out.add(v)
        else:
            for x in v:
                leaves_of(x, pred, out)
    return out
