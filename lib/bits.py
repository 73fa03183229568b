"""Known-bits evaluation of extracted expressions over blocks of values.

A value is a list of 64 bits (two's complement): 0, 1, (leaf, number) for a bit of a leaf that is
not fixed, or None for unknown.  A block fixes the high bits of a leaf and leaves the low ones open."""
from ai import lin

N = 64
W = {'bool': 1, 'unsigned char': 8, 'char': 8, 'signed char': 8, 'unsigned short': 16, 'char16_t': 16, 'short': 16, 'unsigned int': 32, 'int': 32,
     'char32_t': 32, 'wchar_t': 32, 'unsigned long': 64, 'long': 64}
SIGNED = {'char', 'signed char', 'short', 'int', 'wchar_t', 'long'}
FULL = 1 << N


def const(n):
    n &= FULL - 1
    return [n >> i & 1 for i in range(N)]


def block(name, base, k, t):
    """leaf `name` of type t: bits k and up are those of base, the low k ones open"""
    w = W[t]
    b = [(name, i) if i < k else base >> i & 1 for i in range(w)]
    return b + [b[w - 1] if t in SIGNED else 0] * (N - w)


def trunc(b, t):
    w = W.get(t)
    if w is None:
        return b
    return b[:w] + [b[w - 1] if t in SIGNED else 0] * (N - w)


def adder(a, b, carry=0):
    out = []
    for x, y in zip(a, b):
        ones = [v for v in (x, y, carry) if v == 1 and not isinstance(v, tuple)]
        syms = [v for v in (x, y, carry) if isinstance(v, tuple)]
        if None in (x, y, carry) or len(syms) > 1:
            # bits that cannot both be set could still be added, but nothing here needs it
            out.append(None)
            carry = None
        elif syms:
            if len(ones) == 0:
                out.append(syms[0])
                carry = 0
            elif len(ones) == 2:
                out.append(syms[0])
                carry = 1
            else:
                out.append(None)
                carry = None
        else:
            out.append(len(ones) & 1)
            carry = len(ones) >> 1
    return out


def bits(v, env):
    if isinstance(v, bool):
        return const(int(v))
    if isinstance(v, int):
        return const(v)
    if v in env:
        return env[v]
    unknown = [None] * N
    if not isinstance(v, tuple) or not v:
        return unknown
    if v[0] == 'cast':
        return trunc(bits(v[2], env), v[1].replace('const ', '').strip())
    if v[0] == 'op' and len(v) == 4:
        a, b = bits(v[2], env), bits(v[3], env)
        if v[1] == '&':
            return [0 if 0 in (x, y) else y if x == 1 else x if y == 1 or x == y else None for x, y in zip(a, b)]
        if v[1] == '|':
            return [1 if 1 in (x, y) else y if x == 0 else x if y == 0 or x == y else None for x, y in zip(a, b)]
        if v[1] == '^':
            return [y if x == 0 else x if y == 0 else 0 if x == y and x is not None else x ^ y if x in (0, 1) and y in (0, 1) else None for x, y in zip(a, b)]
        n = number(b)
        if v[1] in ('<<', '>>') and n is not None and 0 <= n < N:
            if v[1] == '<<':
                return [0] * n + a[:N - n]
            return a[n:] + [a[N - 1]] * n
        if v[1] == '+':
            return adder(a, b)
        if v[1] == '-':
            return adder(a, [1 - x if x in (0, 1) else None for x in b], 1)
        if v[1] == '*' and n is not None and n > 0 and n & n - 1 == 0:
            k = n.bit_length() - 1
            return [0] * k + a[:N - k]
        if v[1] in ('/', '%') and n is not None and n > 0 and n & n - 1 == 0 and a[N - 1] == 0:
            k = n.bit_length() - 1
            return a[k:] + [0] * k if v[1] == '/' else a[:k] + [0] * (N - k)
        return unknown
    if v[0] == 'op' and v[1] == '~':
        return [1 - x if x in (0, 1) else None for x in bits(v[2], env)]
    if v[0] == 'lin':
        t, c = lin(v)
        out = const(c)
        for k, n in sorted(t.items(), key=repr):
            b = bits(k, env)
            if n == 1:
                out = adder(out, b)
            elif n > 0 and n & n - 1 == 0:
                s = n.bit_length() - 1
                out = adder(out, [0] * s + b[:N - s])
            elif n == -1:
                out = adder(out, [1 - x if x in (0, 1) else None for x in b], 1)
            else:
                return unknown
        return out
    return unknown


def number(b):
    if any(x not in (0, 1) for x in b):
        return None
    n = sum(x << i for i, x in enumerate(b))
    return n - FULL if n >> (N - 1) else n


def span(b):
    """(least, greatest) value; None if a bit is unknown"""
    if None in b:
        return None
    hi = b[N - 1]
    if isinstance(hi, tuple):
        return None
    lo = sum((x if x in (0, 1) else 0) << i for i, x in enumerate(b))
    up = sum((x if x in (0, 1) else 1) << i for i, x in enumerate(b))
    return (lo - FULL, up - FULL) if hi else (lo, up)


def fact(atom, env):
    """truth of an atom for every value of the blocks, or None"""
    if isinstance(atom, bool):
        return atom
    if atom[0] not in ('eq', 'lt'):
        return None
    lo = hi = atom[2]
    terms = []
    for k, n in atom[1]:
        b = bits(k, env)
        terms.append((b, n))
        s = span(b)
        if s is None:
            lo = None
            break
        x, y = sorted((s[0] * n, s[1] * n))
        lo, hi = lo + x, hi + y
    if lo is not None:
        if atom[0] == 'lt':
            if hi < 0 or lo >= 0:
                return hi < 0
        elif lo > 0 or hi < 0:
            return False
        elif lo == hi:
            return lo == 0
    if atom[0] == 'eq' and len(terms) == 1 and len(atom[1]) == 1 and abs(terms[0][1]) == 1:
        c = const(-atom[2] * terms[0][1])
        if any(x in (0, 1) and x != y for x, y in zip(terms[0][0], c)):
            return False
    return None


def split(name, t, classes, atoms, k=None):
    """Maximal blocks of leaf `name` (a value of type t, k bits wide) that lie in one class and for which
    every atom is decided.  classes: [(lo, hi, tag)].  Returns [(base, k, tag, {atom: truth})]."""
    out = []
    todo = [(0, W[t] if k is None else k)]
    while todo:
        base, k = todo.pop()
        top = base + (1 << k) - 1
        hit = [c for c in classes if c[0] <= top and c[1] >= base]
        if not hit:
            continue
        env = {name: block(name, base, k, t)}
        known = {a: fact(a, env) for a in atoms}
        if (len(hit) > 1 or hit[0][0] > base or hit[0][1] < top or None in known.values()) and k:
            todo += [(base, k - 1), (base + (1 << k - 1), k - 1)]
            continue
        out.append((base, k, hit[0][2], known))
    return out


def mentions(v, leaf):
    return v == leaf or isinstance(v, tuple) and any(mentions(x, leaf) for x in v)
