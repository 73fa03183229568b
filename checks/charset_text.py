"""Meaning of the bracket expressions in the library's own literals, as sets of code points (bit masks)."""
import re, gzip, os
from facts import VERIF, CheckError

TOP = 0x10ffff


def bits(a, b):
    return ((1 << (b - a + 1)) - 1) << a


def ranges(m, n=4):
    """first few ranges of a mask, for messages"""
    out, i = [], 0
    while m and len(out) < n:
        s = (m & -m).bit_length() - 1
        m >>= s
        i += s
        e = (~m & (m + 1)).bit_length() - 1
        m >>= e
        out.append('%X-%X' % (i, i + e - 1) if e > 1 else '%X' % i)
        i += e
    return ', '.join(out) + (', ...' if m else '')


def parse(codes, prop=None, top=TOP):
    """mask of a bracket expression given as character codes"""
    s = list(codes)
    if len(s) < 3 or s[0] != 91 or s[-1] != 93:
        raise CheckError('not a bracket expression: ' + ''.join(map(chr, s))[:60])
    s = s[1:-1]
    neg = s[0] == 94
    if neg:
        s = s[1:]
    i, out = 0, 0
    simple = {97: 7, 98: 8, 101: 27, 102: 12, 110: 10, 114: 13, 116: 9, 118: 11}

    def item(i):
        if s[i] != 92:
            return s[i], None, i + 1
        c = s[i + 1]
        if c == 120:
            j = i + 2
            while j < len(s) and chr(s[j]) in '0123456789abcdefABCDEF':
                j += 1
            return int(''.join(map(chr, s[i + 2:j])), 16), None, j
        if c == 112:
            j = s.index(125, i)
            if prop is None:
                raise CheckError('property inside a property')
            return None, prop(''.join(map(chr, s[i + 3:j]))), j + 1
        if c in simple:
            return simple[c], None, i + 2
        if chr(c).isalnum():
            raise CheckError('escape \\%c in a literal' % c)
        return c, None, i + 2
    while i < len(s):
        a, m, i = item(i)
        if m is not None:
            out |= m
            continue
        b = a
        if i + 1 < len(s) and s[i] == 45:
            b, m, i = item(i + 1)
            if m is not None or b < a:
                raise CheckError('bad range in a literal')
        if b > top:
            raise CheckError('code point %X is not a character' % b)
        out |= bits(a, b)
    return (bits(0, top) & ~out) if neg else out


def ucd(name):
    with gzip.open(os.path.join(VERIF, 'data', name + '.txt.gz'), 'rt', encoding='utf8') as f:
        return f.read().split('\n')


_cache = {}


def unicode_sets():
    """name -> mask, as the Unicode Character Database defines the names \\p{} accepts"""
    if 'sets' in _cache:
        return _cache['sets']
    cat, first, low, up = {}, None, {}, {}
    for l in ucd('UnicodeData'):
        if not l:
            continue
        f = l.split(';')
        c = int(f[0], 16)
        if f[1].endswith('First>'):
            first = c
        a = first if f[1].endswith('Last>') else c
        cat.setdefault(f[2], []).append((a, c))
        if f[12]:
            up[c] = int(f[12], 16)
        if f[13]:
            low[c] = int(f[13], 16)
        cat.setdefault('#' + f[2], [])
    out = {}

    def mk(rs):
        m = bytearray((TOP + 8) // 8 + 1)
        for a, b in rs:
            for x in range(a, b + 1):
                m[x >> 3] |= 1 << (x & 7)
        return int.from_bytes(m, 'little')
    for n, rs in cat.items():
        if n[0] != '#':
            out[n] = mk(rs)
    for g in 'CLMNPSZ':
        out[g] = 0
        for n in list(out):
            if len(n) == 2 and n[0] == g:
                out[g] |= out[n]
    out['LC'] = out['Ll'] | out['Lt'] | out['Lu']
    cats = set(out)
    for l in ucd('Blocks'):
        m = re.match(r'([0-9A-F]+)\.\.([0-9A-F]+); (.*)', l)
        if m:
            out['In' + m.group(3).strip().replace(' ', '_')] = bits(int(m.group(1), 16), int(m.group(2), 16))
    sc = {}
    for l in ucd('Scripts'):
        m = re.match(r'([0-9A-F]+)(?:\.\.([0-9A-F]+))?\s*; (\w+)', l)
        if m:
            a = int(m.group(1), 16)
            sc.setdefault(m.group(3), []).append((a, int(m.group(2), 16) if m.group(2) else a))
    for n, rs in sc.items():
        out['Is' + n] = mk(rs)
    low = {c: v for c, v in low.items() if out['Lu'] >> c & 1}
    up = {c: v for c, v in up.items() if out['Ll'] >> c & 1}
    _cache['sets'] = out
    _cache['case'] = {**low, **up}
    return out


def case_map():
    unicode_sets()
    return _cache['case']
