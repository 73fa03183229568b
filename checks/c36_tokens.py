"""C36: the punctuation of a regex is read as the documented tokens."""
from itertools import product
from common import *
from evalx import value, fact, consistent
from record_model import truth
from textloop import Reading, Judge, Config, leaf, BASE, holds, fieldof, mentions
from c02_casefold import enumerator
from c03_characters import LEAVE, ERROR, codes, look, live, named, targs, stateparam, textstate, changes, folds, pairof, nm, agree, noted

BLANK = (9, 10, 11, 12, 13, 32)
NAMES = [c for c in range(128) if chr(c).isalnum() or c in (95, 45)]
FIRST = [c for c in range(128) if chr(c).isalpha() or c == 95]
WORDS = 1 << 64


def run(ctx):
    ctx.rule('tokens', 'every character outside strings and comments is the documented token, with its lazy form, and moves on by exactly what it takes', 100)
    ctx.rule('strings', 'quotes toggle literal text, comments and white space are left out before a token is read, and nothing else is', 8)
    ctx.rule('comment', 'a (?#) comment is skipped up to the bracket that closes it, outside strings only', 3)
    ctx.rule('space', 'with skip_ws exactly blanks and C comments are skipped, outside strings only', 3)
    ctx.rule('options', 'the options of a group set and clear exactly their flags, and those before it are kept for its end', 5)
    ctx.rule('curly', 'a brace opens a set operation, a repeat or a macro, by the character behind it', 8)
    ctx.rule('repeat', 'a repeat has the counts written, {0,} {1,} {0,1} are * + ?, and impossible counts are refused', 3)
    ctx.rule('macro', 'a macro name is a letter or _ and letters, digits, _ and -, up to }', 3)
    ctx.rule('literal', 'a literal character stands for itself, and its other case exactly with icase', 4)
    F = ctx.facts('d_core')
    E = Enums(F)
    JUDGES = {'next': Next, 'comment': comment, 'skip': skip, 'read_options': options, 'open_curly': curly, 'repeat_n': repeat, 'macro': macro, 'add_char': literal}
    done = set()
    for f in F.fns.values():
        if 'body' in f and 'basic_re_tokeniser<' in f.get('cls', '') and f['n'] in JUDGES:
            JUDGES[f['n']](ctx, F, E, f)
            done.add(f['n'])
    missing = set(JUDGES) - done
    if missing:
        raise CheckError('not found: %s' % ', '.join(sorted(missing)))


class Enums:
    def __init__(self, F):
        self.F = F

    def __getattr__(self, n):
        v = enumerator(self.F, n)
        setattr(self, n, v)
        return v


def at(f):
    return f['q'] + ':%d' % f['l']


def who(f):
    return short(f['cls'])


def byref(f, pred):
    return next((q['n'] for q in f['params'] if '&' in q['t'] and pred(bare(q['t'].split('&')[0].replace('const', '').strip()))), None)


def own(ctx, F, f):
    """what the function leaves to others: itself is read with what it calls in line, but not the other subjects"""
    return LEAVE | {'comment', 'skip', 'read_options', 'open_curly', 'repeat_n', 'macro', 'add_char', 'escape', 'charset', 'escape_sequence', 'fold'} - {f['n']}


def report(ctx, rule, f, J, bad, modes):
    o = who(f)
    bad = {} if bad is None else bad
    for m in ('start',) + tuple(modes):
        ctx.check(m not in bad, rule, o + ':' + m, at(f), '%s, %s' % (f['n'], bad.get(m, '')))
    ctx.count('segments', J.count)


class Spec:
    error = ERROR
    vars = ()
    modes = ()

    def __init__(self, I, f, S):
        self.I, self.f, self.S = I, f, S

    def domain(self, m, text):
        return [{}]

    def fixed(self, p):
        return {}

    def fits(self, name, Q):
        return True

    def returned(self, p, c, text, env):
        """position at the end of partition p"""
        return value(self.I.val(p, ('f', ('v', self.S), '_curr')), env) == BASE + c.k


def windows(*cs):
    """texts with the i-th character out of cs[i], of every length"""
    for n in range(len(cs) + 1):
        yield from product(*cs[:n])


def signed(t, cs):
    return cs


# ---- comments and white space --------------------------------------------------------------------------------------------------------------------

def outputs(S):
    """checks the character and end flag handed back: the pending character is the k-th"""
    def returned(p, c, text, env):
        x = value(S.I.val(p, ('v', S.ch)), env)
        e = value(S.I.val(p, ('v', S.eos)), env)
        q = value(S.I.val(p, ('f', ('v', S.S), '_curr')), env)
        r = value(p.ret, env)
        if r is None or bool(r) != c.var['skipped']:
            return False
        if c.k == len(text):
            return e == 1 and q == BASE + len(text)
        return e == 0 and q == BASE + c.k + 1 and x is not None and agree(x, text[c.k], S.t)
    return returned


class Skipping(Spec):
    def __init__(self, I, f, S):
        super().__init__(I, f, S)
        self.t = stateparam(f)[1]
        self.ch, self.eos = byref(f, lambda t: t == self.t), byref(f, lambda t: t == 'bool')
        if self.ch is None or self.eos is None:
            raise CheckError('parameters of ' + f['q'])
        self.returned = outputs(self)
        self.flags, self.instr = ('in', ('f', ('v', S), '_flags')), ('in', ('f', ('v', S), '_in_string'))

    def entry(self, R, flags=(0,)):
        pos = ('in', R.P)

        def of(text):
            if not text:
                return                                   # only called with a character
            for s in (0, 1):
                for fl in flags:
                    env = R.base(pos, ('in', ('v', self.ch)), ('in', ('v', self.eos)), text)
                    env[self.instr], env[self.flags] = s, fl
                    yield env, (s, fl)
        return of


class CommentSpec(Skipping):
    vars = ('count',)
    modes = ('inside',)

    def texts(self, m):
        if m is None:
            return list(windows((40, 41, 47, 97), (63, 35, 97), (35, 58, 97), (41, 97)))
        return list(windows([40, 41, 0, 34, 39, 42, 92, 97, 125] + sorted(c for c in noted(live(self.I)) if 0 <= c < 128), (41, 97), (97,)))

    def domain(self, m, text):
        return [{'count': n} for n in (1, 2, 3)]

    def start(self, text, inp):
        if not inp[0] and text[:3] == (40, 63, 35):
            yield from self.run(Config('inside', 3, count=1), text)
        else:
            yield Config('inside', 0, 'ret', skipped=False)

    def run(self, c, text):
        k, n = c.k, c.var['count']
        while True:
            yield Config('inside', k, count=n)
            if k == len(text):
                yield Config('inside', k, 'throw')
                return
            n += (text[k] == 40) - (text[k] == 41)
            k += 1
            if n == 0 and text[k - 1] == 41:
                yield Config('inside', k, 'ret', skipped=True)
                return


def comment(ctx, F, E, f):
    S = stateparam(f)[0]
    I = look(ctx, F, f, own(ctx, F, f))
    R = Reading(I, S)
    sp = CommentSpec(I, f, S)
    J = Judge(R, sp)
    report(ctx, 'comment', f, J, J.best(sp.entry(R)), sp.modes)


class SkipSpec(Skipping):
    vars = ('skipped',)
    modes = ('outside', 'inside')

    def __init__(self, I, f, S, ws):
        super().__init__(I, f, S)
        self.ws = ws

    def texts(self, m):
        cs = sorted({0, 8, 14, 31, 33, 34, 35, 42, 47, 97, 133} | set(BLANK) | {c for c in noted(live(self.I)) if 0 <= c < 128})
        if self.t == 'char':
            cs.append(-1)
        return list(windows(cs, (42, 47, 32, 97), (42, 47, 97), (47, 97)))

    def domain(self, m, text):
        return [{'skipped': 0}, {'skipped': 1}]

    def start(self, text, inp):
        s, fl = inp
        if s or not fl & self.ws:
            yield Config('outside', 0, 'ret', skipped=False)
        else:
            yield from self.run(Config('outside', 0, skipped=0), text)

    def run(self, c, text):
        k, m, sk, n = c.k, c.mode, c.var['skipped'], len(text)
        while True:
            yield Config(m, k, skipped=sk)
            if m == 'inside':
                if k == n:
                    yield Config(m, k, 'throw')
                    return
                if text[k:k + 2] == (42, 47):
                    m, k = 'outside', k + 2
                else:
                    k += 1
                sk = 1
            elif k < n and text[k] in BLANK:
                k, sk = k + 1, 1
            elif text[k:k + 2] == (47, 42):
                m, k, sk = 'inside', k + 2, 1
            else:
                yield Config(m, k, 'ret', skipped=bool(sk))
                return


def skip(ctx, F, E, f):
    S = stateparam(f)[0]
    I = look(ctx, F, f, own(ctx, F, f))
    R = Reading(I, S)
    sp = SkipSpec(I, f, S, E.skip_ws)
    # within a comment it does not matter what was skipped before
    run_, dom = sp.run, sp.domain
    sp.domain = lambda m, text: dom(m, text) if m == 'outside' else [{'skipped': 1}]
    J = Judge(R, sp)
    ws = E.skip_ws
    report(ctx, 'space', f, J, J.best(sp.entry(R, (0, ws, 7 & ~ws, ws | 1, ws | 6, 0xff & ~ws))), sp.modes)


# ---- options -------------------------------------------------------------------------------------------------------------------------------------

class OptionSpec(Spec):
    vars = ('flags', 'negate')
    modes = ('option',)

    def __init__(self, I, f, S, E):
        super().__init__(I, f, S)
        self.E = E
        self.t = stateparam(f)[1]
        self.F0 = ('in', ('f', ('v', S), '_flags'))
        self.SP = ('f', ('v', S), '_flags_stack')

    def texts(self, m):
        cs = sorted({58, 45, 105, 115, 120, 73, 83, 88, 41, 97, 109, 59} | {c for c in noted(live(self.I)) if 0 <= c < 128})
        if m is None:
            return list(windows((63, 97, 41), (58, 105, 45, 97), (58, 115)))
        return list(windows(cs, (58, 45, 105, 97), (58, 120)))

    def fits(self, name, Q):
        return (name == 'flags') == (Q[0] == 'f' and Q[2] == '_flags')

    def domain(self, m, text):
        return [{'flags': f, 'negate': n} for f in (0, 1, 2, 4, 8, 16, 31, 21, 10) for n in (0, 1)]

    def start(self, text, inp):
        self.full = inp
        if text[:1] == (63,):
            yield from self.run(Config('option', 1, flags=0, negate=0), text)
        else:
            yield Config('option', 0, 'ret', flags=0, pushed=1 if inp else 0)

    def run(self, c, text):
        E = self.E
        k, fl, neg = c.k, c.var['flags'], c.var['negate']
        while True:
            yield Config('option', k, flags=fl, negate=neg)
            if k == len(text) or text[k] == 58:
                yield Config('option', min(k + 1, len(text)), 'ret', flags=fl, pushed=1)
                return
            x = text[k]
            if x == 45:
                neg ^= 1
            elif x in (105, 115, 120):
                bit = {105: E.icase, 115: E.dot_not_newline, 120: E.skip_ws}[x]
                if (x == 115) != bool(neg):
                    # . matches everything
                    fl &= ~(bit | E.dot_not_cr_lf) if x == 115 else ~bit
                else:
                    fl |= bit
                neg = 0
            else:
                yield Config('option', k, 'throw')
                return
            k += 1

    def returned(self, p, c, text, env):
        if not super().returned(p, c, text, env):
            return False
        if value(self.I.val(p, ('f', ('v', self.S), '_flags')), env) != c.var['flags']:
            return False
        v = self.I.val(p, self.SP)
        old = ('in', self.SP)
        return v == (('push', old, self.F0) if c.var['pushed'] else old)


def options(ctx, F, E, f):
    S = stateparam(f)[0]
    I = look(ctx, F, f, own(ctx, F, f))
    R = Reading(I, S)
    sp = OptionSpec(I, f, S, E)
    J = Judge(R, sp)
    stack = ('size', ('in', sp.SP))

    def entry(text):
        for full in (0, 1, 2):
            env = R.base(('in', R.P), None, None, text)
            env[sp.F0] = 0
            env[stack] = full
            yield env, full
    report(ctx, 'options', f, J, J.best(entry), sp.modes)
    # what is kept for the end of the group are the flags before it, whatever they are
    for p in live(I):
        if p.end[0] == 'throw':
            continue
        for e in p.ev:
            if e[0] == 'call' and e[2] == sp.SP and e[1]['n'] in ('push', 'emplace'):
                ctx.check(e[3] == (sp.F0,) or list(e[3]) == [sp.F0], 'options', who(f) + ':kept', at(f), 'keeps %s for the end of the group' % [show(x)[:60] for x in e[3]])


# ---- braces --------------------------------------------------------------------------------------------------------------------------------------

def curly(ctx, F, E, f):
    o, where = who(f), at(f)
    S, t = stateparam(f)
    toks = [q['n'] for q in f['params'] if 're_token<' in q['t'] and '&' in q['t']]
    if len(toks) != 2:
        raise CheckError('parameters of ' + f['q'])
    I = look(ctx, F, f, own(ctx, F, f))
    R = Reading(I, S)
    before, tok = toks
    B = ('in', ('f', ('v', before), '_type'))
    kinds = range(E.BEGIN, E.DIFF + 1)
    pos = ('in', R.P)
    for text in windows(sorted({c for c in codes(t, live(I)) if -1 <= c < 128}), (125, 43, 45, 97, 123), (97,)):
        env0 = R.base(pos, None, None, text)
        for b in kinds if text[:1] in ((43,), (45,)) and len(text) < 3 else (E.CHARSET,):
            env = dict(env0)
            env[B] = b
            ps = [p for p in live(I) if holds(p, env)]
            what = 'end' if not text else 'set' if text[0] in (43, 45) else 'repeat' if 48 <= text[0] <= 57 else 'macro'
            if not ps:
                ctx.bad('curly', o + ':' + what, where, 'nothing is done behind {')
            for p in ps:
                calls = [e for e in p.ev if e[0] == 'call' and e[1]['n'] in ('repeat_n', 'macro')]
                moved = value(I.val(p, R.P), env)
                if what == 'end':
                    ok = p.end[:2] == ('throw', ERROR)
                elif what == 'set':
                    if b != E.CHARSET or text[1:2] != (125,):
                        ok = p.end[:2] == ('throw', ERROR)
                    else:
                        x = I.val(p, ('f', ('v', tok), '_extra'))
                        ok = p.end[0] == 'ret' and not calls and moved == BASE + 2 and value(I.val(p, ('f', ('v', tok), '_type')), env) == E.DIFF and \
                            onechar(x, env) == text[0]
                else:
                    n = 'repeat_n' if what == 'repeat' else 'macro'
                    ok = p.end[0] == 'ret' and [e[1]['n'] for e in calls] == [n]
                    if ok:
                        v = textstate(I, p, calls[0], next(i for i, a in enumerate(calls[0][3]) if a == ('addr', R.V)))
                        ok = (v is None or value(I.proj(v, 'f', '_curr'), env) == BASE) and ('addr', ('v', tok)) in calls[0][3]
                if not ctx.check(ok, 'curly', o + ':' + what, where, 'behind %s, {%s is read as %s' % (b, ''.join(map(nm, text)), [e[1]['n'] for e in calls] or p.end[:2])):
                    return


def onechar(v, env):
    """the code a string of one character has"""
    if isinstance(v, tuple) and v[0] in ('push', 'mut') and v[1] == ('empty',):
        v = v[2]
    if isinstance(v, tuple) and v[0] == 'mut' and v[1] in ('append', 'assign', 'push_back', 'operator='):
        v = v[3][-1]
    if isinstance(v, tuple) and v[0] == 'new':
        v = v[2][-1]
    x = value(v, env)
    return x


class RepeatSpec(Spec):
    vars = ('min', 'max')
    modes = ('least', 'most', 'digit')

    def __init__(self, I, f, S, E, tok):
        super().__init__(I, f, S)
        self.E, self.tok = E, tok
        self.X = ('f', ('v', tok), '_extra')
        self.T = ('f', ('v', tok), '_type')

    def fits(self, name, Q):
        return Q != self.X

    def texts(self, m):
        cs = sorted({48, 49, 50, 57, 44, 125, 63, 97, 47, 58} | {c for c in noted(live(self.I)) if 0 <= c < 128})
        ws = list(windows(cs, (44, 125, 48, 97), (125, 63), (63, 97)))
        if m is None or m == 'digit':
            ws = [w for w in ws if w and 48 <= w[0] <= 57]
        return ws

    def domain(self, m, text):
        mins = (0, 1, 2, 49, (WORDS - 1) // 10, WORDS // 10 + 1)
        if m == 'least':
            return [{'min': x} for x in mins]
        return [{'min': x, 'max': y} for x in (0, 1, 2, 13) for y in (0, 1, 13, (WORDS - 1) // 10, WORDS // 10 + 1)]

    def start(self, text, inp):
        yield from self.run(Config('least', 0, min=0), text)

    def done(self, form, k, mn, mx, text, out):
        E = self.E
        if form == 'open' and mn < 2:
            plain, lazy = ((E.ZEROORMORE, E.AZEROORMORE), (E.ONEORMORE, E.AONEORMORE))[mn]
        elif form == 'range' and (mn, mx) == (0, 1):
            plain, lazy = E.OPT, E.AOPT
        elif form == 'exact' and mn == 0 or form == 'range' and (mx < mn or mx == 0):
            return Config('', k, 'throw')
        else:
            plain, lazy = E.REPEATN, E.AREPEATN
        counted = plain == E.REPEATN
        if text[k:k + 1] == (63,):
            return Config('', k + 1, 'ret', type=lazy, out=out, cut=form == 'range' and mn == mx, counted=counted)
        return Config('', k, 'ret', type=plain, out=out, cut=form == 'range' and mn == mx, counted=counted)

    def run(self, c, text):
        m, k, n = c.mode, c.k, len(text)
        mn, mx = c.var['min'], c.var.get('max', 0)
        out = ()
        while True:
            if m == 'least':
                yield Config(m, k, min=mn)
                if k < n and 48 <= text[k] <= 57:
                    yield Config('digit', k, min=mn)     # of either number
            else:
                yield Config('most', k, min=mn, max=mx)
                if k < n and 48 <= text[k] <= 57:
                    yield Config('digit', k, min=mn, max=mx)
            if k == n:
                yield Config(m, k, 'throw')
                return
            x = text[k]
            if 48 <= x <= 57:
                v = (mn if m == 'least' else mx) * 10 + x - 48
                if v >= WORDS:
                    yield Config(m, k, 'throw')
                    return
                if m == 'least':
                    mn = v
                else:
                    mx = v
                out += (x,)
                k += 1
            elif x == 125:
                yield self.done('exact' if m == 'least' else 'range', k + 1, mn, mx, text, out)
                return
            elif x == 44 and m == 'least' and k + 1 < n:
                out += (x,)
                if text[k + 1] == 125:
                    yield self.done('open', k + 2, mn, 0, text, out)
                    return
                if not 48 <= text[k + 1] <= 57:
                    yield Config(m, k, 'throw')
                    return
                m, k, mx = 'most', k + 1, 0
            else:
                yield Config(m, k, 'throw')
                return

    def returned(self, p, c, text, env):
        if not super().returned(p, c, text, env) or value(self.I.val(p, self.T), env) != c.var['type']:
            return False
        return not c.var['counted'] or self.extra(self.I.val(p, self.X), c.var['out'], c.var['cut'], env)

    def extra(self, v, out, cut, env):
        """the text of the counts grew by out since the last header, and is cut at its comma if both are the same"""
        if cut:
            if not (isinstance(v, tuple) and v[0] == 'mut' and v[1] in ('erase', 'resize')):
                return False
            where = v[3][0]
            if not (isinstance(where, tuple) and where[0] in ('m', 'pure') and where[1].startswith('find') and mentions(where, 44)):
                return False
            v = v[2]
        got = []
        while isinstance(v, tuple) and v[0] in ('mut', 'push'):
            if v[0] == 'mut' and v[1] not in ('append', 'push_back', 'operator+='):
                return False
            got.append(value(v[3][-1] if v[0] == 'mut' else v[2], env))
            v = v[2] if v[0] == 'mut' else v[1]
        return isinstance(v, tuple) and v[0] in ('phi', 'in') and tuple(reversed(got)) == out


def repeat(ctx, F, E, f):
    S = stateparam(f)[0]
    tok = next(q['n'] for q in f['params'] if 're_token<' in q['t'])
    I = look(ctx, F, f, own(ctx, F, f))
    R = Reading(I, S)
    sp = RepeatSpec(I, f, S, E, tok)
    J = Judge(R, sp)

    def entry(text):
        yield R.base(('in', R.P), None, None, text), None
    report(ctx, 'repeat', f, J, J.best(entry), sp.modes)
    # every round writes its digit down
    for h in R.heads:
        ph = R.at(h, sp.X)
        for p in R.L.backs(h):
            v = R.given(p.ret, sp.X)
            good = v is not None and R.spots[h][1] is not None and grown(v, ph, R.L.phi(h, R.spots[h][1]))
            ctx.check(good, 'repeat', who(f) + ':digits', at(f), 'a digit of a count is kept as %s' % show(v)[:80])


def grown(v, old, x):
    return isinstance(v, tuple) and (v[0] == 'mut' and v[1] in ('append', 'push_back', 'operator+=') and v[2] == old and uncast_(v[3][-1]) == x or
                                     v[0] == 'push' and v[1] == old and uncast_(v[2]) == x)


def uncast_(v):
    while isinstance(v, tuple) and v[0] == 'cast':
        v = v[2]
    return v


# ---- macro names ---------------------------------------------------------------------------------------------------------------------------------

class MacroSpec(Spec):
    modes = ('named', 'next')

    def __init__(self, I, f, S, E, tok):
        super().__init__(I, f, S)
        self.E = E
        self.X, self.T = ('f', ('v', tok), '_extra'), ('f', ('v', tok), '_type')

    def texts(self, m):
        t = stateparam(self.f)[1]
        every = sorted({c for c in codes(t, live(self.I)) if -2 < c < 256})
        some = (65, 45, 48, 95, 125, 32)
        ws = list(windows(every, some)) + list(windows(some, every, some))
        if m is None:
            return [w for w in ws if w and w[0] != 0]
        if m == 'named':
            return [w for w in ws if w and w[0] in NAMES]
        return ws

    def start(self, text, inp):
        if text[0] not in FIRST:
            yield Config('named', 0, 'throw')
        else:
            yield from self.run(Config('named', 0), text)

    def run(self, c, text):
        m, k, n = c.mode, c.k, len(text)
        out = ()
        while True:
            # named: a character of the name is to be kept; next: it is to be seen what follows
            yield Config(m, k, out=out)
            if m == 'named':
                out, k, m = out + (text[k],), k + 1, 'next'
            elif k == n:
                yield Config(m, k, 'throw')
                return
            elif text[k] in NAMES:
                m = 'named'
            elif text[k] == 125:
                yield Config(m, k + 1, 'ret', out=out)
                return
            else:
                yield Config(m, k, 'throw')
                return

    def returned(self, p, c, text, env):
        if not super().returned(p, c, text, env) or value(self.I.val(p, self.T), env) != self.E.MACRO:
            return False
        v, got = self.I.val(p, self.X), []
        while isinstance(v, tuple) and v[0] in ('mut', 'push'):
            if v[0] == 'mut' and v[1] not in ('append', 'push_back', 'operator+='):
                return False
            got.append(value(v[3][-1] if v[0] == 'mut' else v[2], env))
            v = v[2] if v[0] == 'mut' else v[1]
        return isinstance(v, tuple) and v[0] in ('phi', 'in') and tuple(reversed(got)) == c.var['out']


def macro(ctx, F, E, f):
    S = stateparam(f)[0]
    tok = next(q['n'] for q in f['params'] if 're_token<' in q['t'])
    I = look(ctx, F, f, own(ctx, F, f))
    R = Reading(I, S)
    sp = MacroSpec(I, f, S, E, tok)
    J = Judge(R, sp)

    def entry(text):
        yield R.base(('in', R.P), None, None, text), None
    report(ctx, 'macro', f, J, J.best(entry), sp.modes)
    for h in R.heads:
        ph = R.at(h, sp.X)
        pos, x, e = R.spots[h]
        for p in R.L.backs(h):
            v = R.given(p.ret, sp.X)
            good = v is not None and (x is not None and grown(v, ph, R.L.phi(h, x)) or grown(v, ph, leaf(pos)))
            ctx.check(good, 'macro', who(f) + ':kept', at(f), 'a character of a name is kept as %s' % show(v)[:80])


# ---- literals ------------------------------------------------------------------------------------------------------------------------------------

def literal(ctx, F, E, f):
    o, where = who(f), at(f)
    S = stateparam(f)[0]
    ctype = targs(f)[1]
    ch = next(q['n'] for q in f['params'] if bare(q['t'].replace('const', '').replace('&', '').strip()) == ctype)
    tok = next(q['n'] for q in f['params'] if 'string_token<' in q['t'])
    I = look(ctx, F, f, LEAVE | {'fold', 'insert'})
    C, fl = ('in', ('v', ch)), ('in', ('f', ('v', S), '_flags'))
    vals = {'char': [-128, -1, 0, 10, 65, 97, 127], 'unsigned char': [0, 65, 97, 255]}.get(ctype, [0, 65, 97, 255, 0xffff, 0x10000, 0x10ffff])
    for p in live(I):
        if not ctx.check(p.end[0] == 'ret', 'literal', o + ':refused', where, 'a character is refused'):
            continue
        fo = folds(p)
        ins = [e[3][0] for e in p.ev if e[0] == 'call' and e[1]['n'] == 'insert' and e[2] == ('v', tok)]
        other = [x for x in ins if isinstance(x, tuple) and x[0] == 'hv' and ('addr', x[2]) in fo or isinstance(x, tuple) and x[0] == 'hv' and x[2] in fo]
        mine = [x for x in ins if x not in other]
        q = pairof(mine[0]) if len(mine) == 1 else None
        ok = q is not None and all(agree(value(y, {C: v}), v, ctype) for y in q for v in vals)
        ctx.check(ok, 'literal', o + ':itself', where, 'a literal adds %s' % [show(x)[:60] for x in mine])
        for flags in (0, E.icase, 0xff & ~E.icase, 0xff):
            if not consistent(p, {fl: flags}):
                continue
            calls = named(p, 'fold')
            ctx.check(len(calls) == (1 if flags & E.icase else 0), 'literal', o + ':case', where, 'the other case is %slooked for' % ('' if calls else 'not '))
            for e in calls:
                q = pairof(e[3][0]) if e[3][0][0] != 'addr' else pairof(textstate(I, p, e))
                ctx.check(q is None or all(agree(value(y, {C: v}), v, ctype) for y in q for v in vals), 'literal', o + ':case', where, 'the case of another character is looked for')
                out = [a[1] for a in e[3] if isinstance(a, tuple) and a[0] == 'addr']
                kept = {v for a in p.facts.atoms for v in sizes(a) if v[0] == 'hv' and v[2][0] == 'f' and v[2][1] in out}
                empty = [v for v in kept if truth(p, atom_eq(('size', v), 0))]
                ctx.check(bool(other) or bool(empty), 'literal', o + ':added', where, 'the other case is not added')


def sizes(t):
    """what the sizes looked at are of"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'size':
            yield t[1]
        for x in t:
            yield from sizes(x)


# ---- next ----------------------------------------------------------------------------------------------------------------------------------------

TOP = 77        # flags kept for the end of a group


class Next:
    """one token: the parts of next() between its loops and its calls"""

    def __init__(self, ctx, F, E, f):
        self.ctx, self.F, self.E, self.f = ctx, F, E, f
        self.o, self.where = who(f), at(f)
        self.S, self.t = stateparam(f)
        self.ctype = targs(f)[1]
        toks = [q['n'] for q in f['params'] if 're_token<' in q['t'] and '&' in q['t']]
        if len(toks) != 2:
            raise CheckError('parameters of ' + f['q'])
        self.before, self.T = toks
        self.I = I = look(ctx, F, f, own(ctx, F, f) | {'insert', 'negate'})
        self.R = R = Reading(I, self.S)
        self.V, self.SP = R.V, ('f', R.V, '_flags_stack')
        self.STR, self.TYPE = ('f', ('v', self.T), '_str'), ('f', ('v', self.T), '_type')
        self.X = self.EOS = None
        for p in live(I):
            for e in p.ev:
                if e[0] == 'call' and e[1]['n'] in ('comment', 'skip'):
                    x, eo = self.handed(e)
                    if self.X is None:
                        self.X, self.EOS = x, eo
                    if not ctx.check((x, eo) == (self.X, self.EOS) and ('addr', self.V) in e[3], 'strings', self.o + ':handed', self.where,
                                     '%s is not handed the pending character, the end flag and the text' % e[1]['n']):
                        return
        if self.X is None:
            ctx.bad('strings', self.o + ':handed', self.where, 'comments and white space are not left out')
            return
        for h in R.heads:
            pos = R.spots[h][0]
            R.spots[h] = (pos, self.X, self.EOS)
        self.seen = set()
        for p in live(I):
            self.cleared(p)
            i = 0
            start, called = None, ()
            for j, e in enumerate(p.ev + [('end',)]):
                stop = e[0] in ('loop', 'end') or e[0] == 'call' and e[1]['n'] in ('comment', 'skip')
                if not stop:
                    continue
                self.segment(p, start, called, i, j, e)
                i = j + 1
                if e[0] == 'loop':
                    start, called = e, ()
                elif e[0] == 'call':
                    start, called = e, called + (e,)
        for what in WHATS:
            ctx.check(what in self.seen, 'strings' if what[0] == '-' else 'tokens', self.o + ':' + what.strip('-') + ':read', self.where, 'nothing is done for ' + what.strip('-'))

    def handed(self, e):
        g = self.F.fns[e[1]['fn']]
        x = eo = None
        for q, a in zip(g['params'], e[3]):
            t = bare(q['t'].replace('&', '').replace('const', '').strip())
            if isinstance(a, tuple) and a[0] == 'addr':
                if t == 'bool':
                    eo = a[1]
                elif t == self.t:
                    x = a[1]
        return x, eo

    def cleared(self, p):
        """the token is empty before anything is put into it"""
        first = next((e for e in p.ev if e[0] == 'call' and (e[2] == self.STR or any(a in (('addr', self.STR), ('addr', ('v', self.T))) for a in e[3]))), None)
        for e in [first] if first is not None else []:
            if e[2] == self.STR:
                v = e[6] if len(e) > 6 else None
            else:
                v = None
            for P, (after, old) in changes(p, e).items():
                if P == self.STR:
                    v = old
                elif P == ('v', self.T):
                    v = self.I.proj(old, 'f', '_str')
                    x = self.I.proj(old, 'f', '_extra')
                    self.ctx.check(x == ('empty',), 'tokens', self.o + ':fresh', self.where, 'the token still has the text %s of the one before' % show(x)[:60])
            if v is not None:
                r = self.I.proj(v, 'f', '_ranges')
                self.ctx.check(r == ('empty',), 'tokens', self.o + ':fresh', self.where, 'the token still has the characters %s of the one before' % show(r)[:60])

    def at(self, start, p, P):
        """value of a place at the start of a segment"""
        if start is None:
            return ('in', P)
        if start[0] == 'call':
            n = start[4][1]
            if P[0] == 'f' and P[1] == self.V:
                return self.I.proj(('hv', n, self.V), 'f', P[2])
            return ('hv', n, P)
        v = self.R.at(start[1], P)
        if v is None:
            i = next(k for k, e in enumerate(p.ev) if e is start)
            for e in reversed(p.ev[:i]):
                if e[0] == 'loop' and self.R.at(e[1], P) is not None:
                    return self.R.at(e[1], P)
            return ('in', P)
        return v

    def env(self, p, start, called, text, res, s, fl, paren, full, first):
        g = lambda n: self.at(start, p, ('f', self.V, n))
        d = 0 if start is None else 1
        x, e = (self.at(start, p, self.X), self.at(start, p, self.EOS)) if d else (None, None)
        env = self.R.base(g('_curr'), x, e, text)
        env[g('_end')] = BASE + len(text)
        env[g('_start')] = BASE if first else BASE - 7
        env[g('_in_string')], env[g('_flags')], env[g('_paren_count')] = s, fl, paren
        st = g('_flags_stack')
        env[('size', st)] = full
        env[st[:-1] + (('i', st[-1], add(('size', st), -1)),) if st[0] in ('in', 'hv', 'phi') else ('idx', st, add(('size', st), -1))] = TOP
        for c, r in zip(called, res):
            env[c[4]] = r
        return env

    def known(self, h):
        """(no way to the loop has reached the end, every way has seen a quote)"""
        def is_(p, v, k):
            return v == k if isinstance(v, int) else v is not None and truth(p, atom_eq(v, k)) is True
        arr = [(self.R.given(v, self.EOS), self.R.given(v, self.X), p) for v, p in self.R.arrivals(h)]
        return all(is_(p, e, 0) for e, x, p in arr), all(is_(p, x, 34) for e, x, p in arr)

    def cases(self, start, called):
        """what may come: (text, results, in a string, flags, brackets open, flags kept, first)"""
        E = self.E
        if start is None:
            for text in ((), (34,), (34, 97), (97,), (97, 98)):
                yield text, (), 0, 0, 0, 0, False
            return
        if start[0] == 'loop':
            noend, quote = self.known(start[1])
            for text in windows((34, 97, 40, 92, 0, 35, 47, 32), (34, 97), (97,)):
                if noend and not text or quote and text and text[0] != 34:
                    continue
                for s, paren in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    yield text, (), s, 0, paren, 0, False
            return
        for res in product((0, 1), repeat=len(called)):
            for s, paren in ((0, 0), (1, 0), (0, 1), (1, 1)):
                if any(res):
                    yield (), res, s, 0, paren, 0, False
            every = [c for c in codes(self.t, live(self.I)) if c != 34 or any(res)]
            if any(res) or len(called) < 2:
                every = (97, 34, 40) if any(res) else (97, 40)
            flags = (0, E.dot_not_newline, E.dot_not_cr_lf, 0xff & ~E.dot_not_newline & ~E.dot_not_cr_lf, 0xff)
            for c in every:
                for s in (0, 1):
                    for text in ((c,), (c, 63), (c, 97), (c, 63, 63)):
                        for fl in flags if c == 46 else (0,):
                            for paren, full in ((0, 0), (1, 1), (2, 0), (3, 3)) if c in (40, 41) else ((1, 1),):
                                for first in (False, True) if c == 94 else (False,):
                                    yield text, res, s, fl, paren, full, first

    def segment(self, p, start, called, i, j, stop):
        key = (id(start), len(called))
        for case in self.cases(start, called):
            env = self.env(p, start, called, *case)
            if not holds(p, env):
                continue
            text, res, s, fl, paren, full, first = case
            self.ctx.count('segments')
            kind = stop[0] if stop[0] != 'end' else p.end[0]
            if len(called) == 2 and not any(res) and text:
                what, bad = self.token(p, env, i, j, kind, *case)
            else:
                what, bad = self.before_token(p, env, start, called, stop, kind, *case)
            self.seen.add(what)
            rule = 'strings' if what[0] == '-' else 'tokens'
            self.ctx.check(not bad, rule, self.o + ':' + what.strip('-'), self.where, 'at %s%s: %s' % (''.join(map(nm, text)) or 'the end', ' in a string' if s else '', bad))

    def before_token(self, p, env, start, called, stop, kind, text, res, s, fl, paren, full, first):
        what = '-start' if start is None else '-end' if not text else '-' + ('quote' if text[0] == 34 else 'other') if start[0] == 'loop' else '-behind ' + called[-1][1]['n']
        name = lambda c: c[1]['n']
        I = self.I
        if kind in ('loop', 'back', 'call'):
            if kind == 'call':
                if name(stop) in [name(c) for c in called]:
                    return what, 'looks for a %s twice' % name(stop)
                pre = changes(p, stop)
                get = lambda P: pre[P][1] if P in pre else I.proj(pre[self.V][1], 'f', P[2]) if P[0] == 'f' and self.V in pre else None
                if any(get(P) is None for P in (self.X, self.EOS, self.R.P)):
                    return what, 'hands %s something else' % name(stop)
            else:
                h, vals = (stop[1], stop[2]) if kind == 'loop' else (p.end[1], p.ret)
                get = lambda P: self.R.given(vals, P) if self.R.given(vals, P) is not None else self.R.at(h, P) if self.R.at(h, P) is not None else self.at(start, p, P)
            q, x, e, ins = (value(get(P), env) for P in (self.R.P, self.X, self.EOS, ('f', self.V, '_in_string')))
            most = 0
            if not called or any(res):
                while most < len(text) and text[most] == 34:
                    most += 1
            for k in range(most + 1):
                if ins is None or bool(ins) != bool(s ^ (k & 1)):
                    continue
                if k == len(text):
                    good = q == BASE + k and e == 1
                else:
                    good = q == BASE + k + 1 and e == 0 and x is not None and (agree(x, text[k], self.t))
                if start is None:
                    good = q == BASE + k + 1 and e == 0 and agree(x, text[k], self.t) if k < len(text) else q == BASE + k and e == 1
                if good and kind == 'call':
                    if k == len(text) or text[k] == 34 and not called:
                        continue
                    return what, None
                if good and (not called or any(res) or k == len(text)):
                    return what, None
            return what, 'goes on with another character, or inside for outside a string'
        # an end
        if text:
            if called and not any(res) or set(text) != {34}:
                return what, 'ends with %s' % (p.end[:2],)
            s ^= len(text) & 1
        if s or paren:
            return what, None if p.end[:2] == ('throw', ERROR) else 'the end is taken within a string or a bracket'
        if kind != 'ret':
            return what, 'the end is refused'
        v = value(I.val(p, self.TYPE), env)
        return what, None if v == self.E.END else 'the end is token %s' % v

    def token(self, p, env, i, j, kind, text, res, s, fl, paren, full, first):
        E, I = self.E, self.I
        c = text[0]
        nxt = text[1] if len(text) > 1 else None
        what = 'string character' if s and c != 92 else {40: '(', 41: ')', 63: '?', 42: '*', 43: '+', 123: '{', 124: '|', 94: '^', 36: '$', 46: '.', 91: '[', 47: '/', 92: 'escape'}.get(c, 'character')
        if kind not in ('ret', 'throw'):
            return what, 'is not taken as a token'
        if not s and (c == 47 or c == 41 and paren == 0):
            return what, None if p.end[:2] == ('throw', ERROR) else 'is not refused'
        if kind == 'throw':
            return what, 'is refused'
        calls = [e for e in p.ev[i:j] if e[0] == 'call' and e[1]['n'] in ('escape', 'charset', 'read_options', 'open_curly', 'add_char', 'insert', 'negate')]
        names = [e[1]['n'] for e in calls]
        typ = value(I.val(p, self.TYPE), env)
        step, newparen, flags, pushed = 0, paren, fl, None
        sets = None
        want = []
        if c == 92:
            token, want = E.CHARSET, ['escape']
        elif s:
            token, want = E.CHARSET, ['add_char']
        elif c == 40:
            token, want, newparen = E.OPENPAREN, ['read_options'], paren + 1
        elif c == 41:
            token, newparen = E.CLOSEPAREN, paren - 1
            if full:
                flags, pushed = TOP, 'pop'
        elif c in (63, 42, 43):
            plain, lazy = {63: (E.OPT, E.AOPT), 42: (E.ZEROORMORE, E.AZEROORMORE), 43: (E.ONEORMORE, E.AONEORMORE)}[c]
            token, step = (lazy, 1) if nxt == 63 else (plain, 0)
        elif c == 123:
            token, want = None, ['open_curly']
        elif c == 124:
            token = E.OR
        elif c == 94 and first:
            token = E.BOL
        elif c == 36 and nxt is None:
            token = E.EOL
        elif c == 46:
            out = {10} if fl & E.dot_not_newline else set()
            if fl & E.dot_not_cr_lf:
                out |= {10, 13}
            token, sets, want = E.CHARSET, out, None
        elif c == 91:
            token, want = E.CHARSET, ['charset']
        elif c in (94, 36):
            token, sets, want = E.CHARSET, 'own', None
        else:
            token, want = E.CHARSET, ['add_char']
        if token is not None and typ != token:
            return what, 'is token %s, not %s' % (typ, token)
        if sets is not None:
            if names == ['add_char'] and sets == 'own':
                want = ['add_char']              # has no other case
            else:
                got = set()
                for e in calls:
                    if e[1]['n'] == 'insert' and e[2] == self.STR:
                        q = pairof(e[3][0]) if e[3] else None
                        v = [value(y, env) for y in q] if q else [None]
                        if None in v or v[0] != v[-1]:
                            return what, 'adds %s' % [show(y)[:60] for y in e[3]]
                        got.add(v[0] & 0x1fffff if v[0] < 0 else v[0])
                if got != ({c} if sets == 'own' else sets):
                    return what, 'adds the characters %s' % sorted(got)
                if sets == 'own':
                    if set(names) != {'insert'}:
                        return what, 'is read by %s' % names
                elif names.count('negate') != 1 or names[-1] != 'negate' or set(names) - {'insert', 'negate'} or calls[-1][2] != self.STR:
                    return what, 'is not everything else than these'
        if want is not None:
            if names != want:
                return what, 'is read by %s, not %s' % (names, want)
            for e in calls:
                bad = self.asked(p, e, env, c, text)
                if bad:
                    return what, bad
                if e[1]['n'] == 'read_options' and value(I.proj(textstate(I, p, e, e[3].index(('addr', self.V))), 'f', '_paren_count'), env) != newparen:
                    return what, 'does not count the bracket'
        changed = any(('addr', self.V) in e[3] for e in calls)
        if not changed:
            got = [value(I.val(p, ('f', self.V, n)), env) for n in ('_curr', '_paren_count', '_flags', '_in_string')]
            if got != [BASE + 1 + step, newparen, flags, s]:
                return what, 'leaves position, brackets, flags and string at %s, not %s' % (got, [BASE + 1 + step, newparen, flags, s])
            v = I.val(p, self.SP)
            st = self.at(self.last(p), p, self.SP)
            popped = isinstance(v, tuple) and v[0] == 'mut' and v[1] == 'pop' and v[2] == st
            if popped != (pushed == 'pop') or not popped and v != st:
                return what, 'leaves the flags kept as %s' % show(v)[:60]
        return what, None

    def last(self, p):
        return [e for e in p.ev if e[0] == 'call' and e[1]['n'] in ('comment', 'skip')][-1]

    def asked(self, p, e, env, c, text):
        """the helper gets the text from behind the character, and the token"""
        I, n = self.I, e[1]['n']
        if n == 'add_char':
            x = value(e[3][0], env)
            if x is None or not agree(x, c, self.ctype if self.ctype == 'char' else self.t if self.t == 'char' else self.ctype):
                return 'the character %s is added' % show(e[3][0])[:60]
        if n != 'add_char' or ('addr', self.V) in e[3]:
            if ('addr', self.V) not in e[3]:
                return '%s does not get the text' % n
            v = textstate(I, p, e, list(e[3]).index(('addr', self.V)))
            if v is not None and (value(I.proj(v, 'f', '_curr'), env) != BASE + 1 or value(I.proj(v, 'f', '_in_string'), env) is None):
                return '%s gets the text from elsewhere' % n
        if n in ('escape', 'charset', 'add_char') and ('addr', self.STR) not in e[3]:
            return '%s does not add to the token' % n
        if n == 'open_curly' and (('addr', ('v', self.T)) not in e[3] or ('addr', ('v', self.before)) not in e[3] or
                                  list(e[3]).index(('addr', ('v', self.before))) > list(e[3]).index(('addr', ('v', self.T)))):
            return '%s does not get the tokens' % n
        return None


WHATS = ['-start', '-end', '-quote', '-other', '-behind comment', '-behind skip', 'string character', '(', ')', '?', '*', '+', '{', '|', '^', '$', '.', '[', '/', 'escape', 'character']
