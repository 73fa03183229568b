"""C11: lookup follows the transition tables exactly (start row, character steps, end-of-line steps, stopping)."""
from lookup_model import *


def run(ctx):
    ctx.rule('start-row', 'scanning starts in the start row of the current state, or in its line-start row when at the start of a line '
             'and the machine has one', 12)
    ctx.rule('char-step', 'a step that consumes a character moves to the row named by the table for that character, most significant '
             'part first for wide characters', 12)
    ctx.rule('eol-step', 'a step that does not consume moves to the row\'s end-of-line target and happens exactly before CR or LF', 9)
    ctx.rule('stop', 'scanning stops only at the end of input or when the table has no target', 12)
    ctx.rule('eol-at-end', 'at the end of input the end-of-line target of the last row is considered', 8)
    ctx.rule('line-start', 'the line-start flag becomes true exactly after consuming a newline', 9)
    ctx.assume('products row*width do not overflow (C21)', 'input characters do not change during a call')
    for m in models(ctx):
        one(ctx, m)


def one(ctx, m):
    I, t, h, SI = m.I, m.t, m.h, m.SI
    ptr, c = m.phi(m.PP), m.phi(m.CP)
    ch = m.char(c)
    E = at(ptr, SI['eol'])
    for p in m.backs + m.commits:
        S = entry_value(I, p, ('f', m.res, 'state'))
        if ('phi', h) == S[:2]:
            ctx.bad('start-row', t, m.f['n'], 'state changes while scanning')
            continue
        dfa = ('begin', ('i', ('f', m.internals, '_dfa'), S))
        alpha = ('in', ('i', ('f', m.internals, '_dfa_alphabet'), S))
        look = ('i', ('f', m.internals, '_lookup'), S)
        row = lambda T: add(dfa, mul(T, alpha))
        # start row
        st = p.ents[h][m.PP]
        B = entry_value(I, p, ('f', m.res, 'bol')) if m.has('bol') else None
        D0 = at(dfa, 0)
        if m.has('bol') and m.zero(p, B) is False and m.zero(p, D0) is False:
            ok = st == row(D0)
        else:
            ok = st == add(dfa, alpha) and (not m.has('bol') or m.zero(p, B) is True or m.zero(p, D0) is True)
        ctx.check(ok, 'start-row', t, m.f['n'], 'start row %s\n%s' % (show(st), showpath(p)) if not ok else '')
        atnl = decided(p, ch, 10) or decided(p, ch, 13)
        notnl = decided(p, ch, 10) is False and decided(p, ch, 13) is False
        if p.end == ('back', h):
            n = p.ret
            if n[m.CP] == c:
                ok = m.has('eol') and n[m.PP] == row(E) and m.zero(p, E) is False and bool(atnl)
                ctx.check(ok, 'eol-step', t, m.f['n'], showpath(p) if not ok else '')
                if m.has('bol'):
                    ctx.check(all(n[P] == m.phi(P) for P in m.running_bol()), 'line-start', t, m.f['n'], showpath(p))
            else:
                rows, ok = chain(m, p, ptr, ch, row, look)
                ok = ok and n[m.CP] == add(c, 1) and n[m.PP] == rows[-1]
                ctx.check(ok, 'char-step', t, m.f['n'], 'next row %s, expected %s\n%s' % (show(n[m.PP]), [show(r) for r in rows], showpath(p)) if not ok else '')
                if m.has('eol'):
                    ok = m.zero(p, E) is True or notnl
                    ctx.check(ok, 'eol-step', t, m.f['n'], 'CR or LF consumed although an end-of-line target exists\n' + showpath(p) if not ok else '')
        else:
            ateoi = decided(p, c, m.eoi)
            if ateoi is not True:
                rows, full = chain(m, p, ptr, ch, row, look)
                ok = full is None and len(rows) < nbytes(m)
                ctx.check(ok, 'stop', t, m.f['n'], 'scan left although a target exists\n' + showpath(p) if not ok else '')
                if m.has('eol'):
                    ok = m.zero(p, E) is True or notnl
                    ctx.check(ok, 'stop', t + ':eol', m.f['n'], showpath(p) if not ok else '')
            else:
                ctx.ok('stop', t)
                if m.has('eol'):
                    z = m.zero(p, E)
                    if z is False:
                        ok = m.accepting(p, row(E)) is not None
                    else:
                        ok = z is True or eolskip(m, p)
                    ctx.check(ok, 'eol-at-end', t, m.f['n'], 'end-of-line target not considered at the end of input\n' + showpath(p) if not ok else '')
    if m.has('bol'):
        rb = m.running_bol()
        ctx.check(bool(rb), 'line-start', t, m.f['n'], 'no carried flag is set to (character == newline) by every consuming step')
        for p in m.backs[:1]:
            for P in rb:
                ctx.check(p.ents[h][P] == entry_value(I, p, ('f', m.res, 'bol')), 'line-start', t + ':entry', m.f['n'], show(p.ents[h][P]))


def decided(p, a, b):
    r = atom_eq(a, b)
    if isinstance(r, bool):
        return r
    q = p.facts.query(r[0])
    return None if q is None else q == r[1]


def nbytes(m):
    return m.nb


def mul(a, b):
    if repr(a) > repr(b):
        a, b = b, a
    return ('op', '*', a, b)


def chain(m, p, ptr, ch, row, look):
    """rows reached by the table for character ch: (rows, True|None(dead)|False(undecided))"""
    wide = wide_input(m)
    m.nb = wide or 1
    rows = []
    cur = ptr
    for i in range(m.nb):
        if wide:
            sh = 8 * (wide - 1 - i)
            x = ('op', '>>', ch, sh) if sh else ch
            idxs = [('op', '&') + tuple(sorted((x, 255), key=repr)), ('op', '&') + tuple(sorted((('op', '>>', ch, sh), 255), key=repr))]
        else:
            idxs = [('cast', 'unsigned char', ch)]
        hit = None
        for ix in idxs:
            T = at(cur, ('in', ('i', look, ix)))
            z = m.zero(p, T)
            if z is not None:
                hit = (T, z)
        if hit is None:
            return rows, False
        if hit[1]:
            return rows, None
        cur = row(hit[0])
        rows.append(cur)
    return rows, True


def wide_input(m):
    """table steps of a wide character"""
    t = m.t
    return 2 if 'char16_t' in t else 3 if 'char32_t' in t or 'wchar_t' in t else 0


def eolskip(m, p):
    """the remembered end-of-line cell equals npos: no target"""
    for P in m.cls:
        if all(q.ret[P] in (m.phi(P), at(m.phi(m.PP), m.SI['eol'])) for q in m.backs) and decided(p, m.phi(P), m.npos):
            return True
    return False
