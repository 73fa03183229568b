"""Lowering of the resolved AST to a control-flow graph with explicit loads, with calls to
library functions of the repository inlined (so that helper extraction is invisible).

IR expressions (tuples):
  ('c',n) ('s',codes,width) ('fnp',id) ('lam',i)
  places: ('v',uid) ('f',P,name) ('d',E) ('i',P,E) ('back',P) ('g',name)
  ('ld',P) ('addr',P) ('un',op,E) ('bin',op,E,E) ('cast',type,E)
  ('m',name,P,(args)) pure observer of the object at P     ('pure',name,(args))
  ('new',type,(args)) ('mk',type,(args)) ('init',type,(args))
Instructions: ('asg',P,E,loc) ('call',destP|None,info,objP|None,args,loc)
Terminators: ('jmp',b) ('br',E,bt,bf,loc) ('sw',E,[(vals,b)],bdef,loc) ('ret',) ('throw',type,E,loc) ('unreach',)
"""
import re

from facts import CheckError

PLACES = ('v', 'f', 'd', 'i', 'back', 'g')

PURE_M = {'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'find', 'c_str', 'data',
          'substr', 'length', 'capacity', 'is', 'count', 'lower_bound', 'upper_bound', 'rdbuf', 'good', 'fail', 'eof', 'bad',
          'gcount', 'max_size', 'name', 'what', 'compare', 'find_first_of', 'rfind', 'owner_before', 'operator bool', 'base',
          'operator!', 'toupper', 'tolower', 'has_value', 'value', 'imbue_', 'precision', 'getloc', 'flags', 'width'}
MUT_KNOWN = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'clear', 'insert', 'emplace', 'erase', 'pop_back', 'pop_front', 'pop', 'push',
             'resize', 'reserve', 'assign', 'append', 'swap', 'release', 'reset', 'fill', 'str', 'read', 'shrink_to_fit', 'splice', 'sort', 'merge', 'unique', 'put', 'write', 'get', 'imbue', 'close', 'open'}
PURE_F = {'min', 'max', 'distance', 'strlen', 'tolower', 'toupper', 'memcmp', 'use_facet', 'back_inserter', 'inserter',
          'make_pair', 'next', 'prev', 'find', 'find_if', 'search', 'as_const', 'make_tuple', 'equal', 'any_of', 'all_of', 'none_of', 'count', 'count_if', 'lower_bound', 'upper_bound', 'abs', 'isalpha', 'isdigit', 'begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'data', 'addressof'}
INTEGERS = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
            'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'wchar_t': 32, 'char16_t': 16, 'char32_t': 32, 'char8_t': 8}
UNSIGNED = {'bool', 'unsigned char', 'unsigned short', 'unsigned int', 'unsigned long', 'unsigned long long', 'char16_t', 'char32_t', 'char8_t'}


def bare(t):
    t = (t or '').strip()
    if t.endswith('&'):
        t = t.rstrip('&').strip()
    for _ in range(2):
        if t.startswith('const '):
            t = t[6:]
        if t.startswith('volatile '):
            t = t[9:]
    return t


class Block:
    __slots__ = ('id', 'ins', 'term')

    def __init__(self, i):
        self.id, self.ins, self.term = i, [], None


class Frame:
    def __init__(self, fn, parent, this):
        self.fn, self.parent, self.this = fn, parent, this
        self.env = {}
        self.lam = {}
        self.ret = None
        self.retref = False
        self.cont = None
        self.labels = {}
        self.breaks, self.continues = [], []


class CFG:
    def __init__(self):
        self.blocks = []
        self.entry = 0
        self.fn = None
        self.names = {}
        self.types = {}
        self.retref = False
        self.inlined = set()
        self.opaque = {}


class Lower:
    def __init__(self, facts, inline=None, max_depth=14, max_blocks=60000, allcalls=False):
        self.F = facts
        self.allcalls = allcalls  # emit an instruction for every call of a library function, const ones and constructors too
        self.inline = inline or (lambda f: True)
        self.max_depth = max_depth
        self.max_blocks = max_blocks

    # ---------------------------------------------------------------- driver
    def lower(self, fn, this=('v', 'this')):
        self.g = CFG()
        self.g.fn = fn
        self.uid = 0
        self.lams = []
        self.g.lams = self.lams
        self.stack = []
        self.cur = self.new_block()
        fr = Frame(fn, None, this if fn.get('cls') and not fn.get('static') else None)
        self.fr = fr
        for p in fn['params']:
            if p.get('isref'):
                # the referenced object is a distinct root place
                fr.env[p['d']] = ('v', p['n'] or 'arg%d' % p['d'])
                self.g.names[p['n']] = p['n']
            else:
                fr.env[p['d']] = ('v', p['n'] or 'arg%d' % p['d'])
            self.g.types[p['n']] = p['t']
        fr.ret = ('v', '$ret')
        rt = fn['rt']
        fr.retref = self.g.retref = rt.rstrip().endswith('&')
        end = self.new_block_detached()
        fr.cont = end
        self.stack.append(fn['id'])
        if fn.get('mk') in ('ctor', 'defctor', 'copyctor', 'movector'):
            self.ctor_inits(fn, fr)
        self.stmt(fn.get('body'))
        self.jump(end)
        self.attach(end)
        self.term(('ret',))
        return self.g

    def new_block(self):
        b = Block(len(self.g.blocks))
        self.g.blocks.append(b)
        if len(self.g.blocks) > self.max_blocks:
            raise CheckError("CFG too large for %s" % self.g.fn['q'])
        return b

    def new_block_detached(self):
        return self.new_block()

    def attach(self, b):
        self.cur = b

    def term(self, t):
        if self.cur is not None and self.cur.term is None:
            self.cur.term = t
        self.cur = None

    def jump(self, b):
        if self.cur is not None:
            self.term(('jmp', b.id))

    def ins(self, i):
        if self.cur is None:
            self.cur = self.new_block()  # unreachable
        self.cur.ins.append(i)

    def fresh(self, hint):
        self.uid += 1
        u = '%s#%d' % (hint, self.uid)
        self.g.names[u] = hint
        return ('v', u)

    def loc(self, n):
        f = self.fr.fn
        return (self.F.rel(f['file']), n.get('l') if isinstance(n, dict) else n, f['n'])

    # ------------------------------------------------------------- utilities
    def lookup(self, d):
        fr = self.fr
        while fr is not None:
            if d in fr.env:
                return fr.env[d]
            fr = fr.lexparent if hasattr(fr, 'lexparent') else None
        return ('v', 'x%d' % d)

    def val(self, n):
        k, e = self.expr(n)
        return ('ld', e) if k == 'P' else e

    def place(self, n):
        k, e = self.expr(n)
        if k == 'P':
            return e
        if e[0] == 'ld':
            return e[1]
        t = self.fresh('tmp')
        self.ins(('asg', t, e, self.loc(n)))
        return t

    def arg(self, n, ptype):
        """argument for an opaque call: by-reference to non-const -> ('addr',P)"""
        if ptype and ptype.rstrip().endswith('&') and not ptype.strip().startswith('const ') and not ptype.rstrip().endswith('&&'):
            return ('addr', self.place(n))
        P = self.decays(n, ptype)
        if P is not None:
            return ('addr', ('i', P, ('c', 0))) if ptype.strip().startswith('const ') else ('decay', P)
        return self.val(n)

    def decays(self, n, ptype):
        """place of the local array n when it is passed as a pointer, or None"""
        if ptype and ptype.rstrip().rstrip('const').rstrip().endswith('*') and n.get('k') == 'ref' and n.get('lv') and re.search(r'\[\d*\]$', n.get('t', '')) and n.get('d') in self.fr.env:
            P = self.fr.env[n['d']]
            if P[0] == 'v':
                return P
        return None

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        if self.cur is None and s['k'] not in ('label', 'case', 'default', 'block', 'switch', 'for', 'while', 'do', 'if'):
            # unreachable straight-line code
            return
        m = getattr(self, 's_' + s['k'], None)
        if m:
            return m(s)
        self.expr(s)

    def s_block(self, s):
        for x in s['s']:
            self.stmt(x)

    def s_nop(self, s):
        pass

    def s_ostmt(self, s):
        for x in s.get('a', []):
            self.stmt(x)

    def s_decl(self, s):
        for v in s['v']:
            self.vardecl(v)

    def vardecl(self, v):
        if v.get('static'):
            q = None
            g = self.F.byid_glob.get(v['d'])
            self.fr.env[v['d']] = ('g', g['q'] if g else v['n'])
            return
        i = v.get('i')
        if v.get('isref') and i is not None:
            k, e = self.expr(i)
            if k == 'P':
                r = self.fresh(v['n'])
                self.ins(('asg', r, ('addr', e), self.loc(v)))
                self.fr.env[v['d']] = ('d', ('ld', r))
            else:
                r = self.fresh(v['n'])
                self.ins(('asg', r, e, self.loc(v)))
                self.fr.env[v['d']] = r
            return
        r = self.fresh(v['n'])
        self.g.types[r[1]] = v['t']
        self.fr.env[v['d']] = r
        if i is not None:
            if i['k'] == 'lambda':
                self.fr.lam[v['d']] = i
            if i['k'] == 'ctor':
                self.construct(i, r)
            elif i['k'] == 'init' and bare(v['t']) in self.F.recbyt:
                self.agg_init(i, r, bare(v['t']))
            else:
                self.ins(('asg', r, self.val(i), self.loc(v)))
        else:
            self.ins(('asg', r, ('undef', v['t']), self.loc(v)))
        if v.get('bindings'):
            for b in v['bindings']:
                if b.get('e'):
                    self.fr.env[b['d']] = self.place(b['e'])

    def agg_init(self, i, P, t):
        rec = self.F.recbyt[t]
        for f, a in zip(rec['fields'], i['a']):
            self.ins(('asg', ('f', P, f['n']), self.val(a), self.loc(i)))

    def s_if(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cv'):
            self.vardecl(s['cv'])
        cnst = s['c_'].get('c') if s['c_'] else None
        if s.get('constexpr') and cnst is not None:
            self.stmt(s.get('x') if cnst else s.get('y'))
            return
        bt, bf, be = self.new_block(), self.new_block(), self.new_block()
        self.cond(s['c_'], bt, bf)
        self.attach(bt)
        self.stmt(s.get('x'))
        self.jump(be)
        self.attach(bf)
        self.stmt(s.get('y'))
        self.jump(be)
        self.attach(be)

    def cond(self, n, bt, bf):
        if self.cur is None:
            self.cur = self.new_block()
        c = n.get('c')
        if n['k'] == 'bin' and n['op'] == '&&':
            m = self.new_block()
            self.cond(n['x'], m, bf)
            self.attach(m)
            return self.cond(n['y'], bt, bf)
        if n['k'] == 'bin' and n['op'] == '||':
            m = self.new_block()
            self.cond(n['x'], bt, m)
            self.attach(m)
            return self.cond(n['y'], bt, bf)
        if n['k'] == 'un' and n['op'] == '!':
            return self.cond(n['e'], bf, bt)
        if n['k'] == 'cond':
            x, y = self.new_block(), self.new_block()
            self.cond(n['c_'], x, y)
            self.attach(x)
            self.cond(n['x'], bt, bf)
            self.attach(y)
            return self.cond(n['y'], bt, bf)
        if n['k'] == 'cast' and n.get('cc') in ('IntegralToBoolean', 'PointerToBoolean'):
            e = n['e']
            return self.cond(e, bt, bf)
        e = self.val(n)
        if self.cur is None:
            return
        self.term(('br', e, bt.id, bf.id, self.loc(n)))

    def s_while(self, s):
        h, b, e = self.new_block(), self.new_block(), self.new_block()
        self.jump(h)
        self.attach(h)
        if s.get('cv'):
            self.vardecl(s['cv'])
        self.cond(s['c_'], b, e)
        self.attach(b)
        self.fr.breaks.append(e)
        self.fr.continues.append(h)
        self.stmt(s.get('x'))
        self.fr.breaks.pop()
        self.fr.continues.pop()
        self.jump(h)
        self.attach(e)

    def s_do(self, s):
        b, c, e = self.new_block(), self.new_block(), self.new_block()
        self.jump(b)
        self.attach(b)
        self.fr.breaks.append(e)
        self.fr.continues.append(c)
        self.stmt(s.get('x'))
        self.fr.breaks.pop()
        self.fr.continues.pop()
        self.jump(c)
        self.attach(c)
        self.cond(s['c_'], b, e)
        self.attach(e)

    def s_for(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        h, b, c, e = self.new_block(), self.new_block(), self.new_block(), self.new_block()
        self.jump(h)
        self.attach(h)
        if s.get('c_'):
            self.cond(s['c_'], b, e)
        else:
            self.jump(b)
        self.attach(b)
        self.fr.breaks.append(e)
        self.fr.continues.append(c)
        self.stmt(s.get('x'))
        self.fr.breaks.pop()
        self.fr.continues.pop()
        self.jump(c)
        self.attach(c)
        if s.get('inc'):
            self.expr(s['inc'])
        self.jump(h)
        self.attach(e)

    def s_rfor(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        R = self.place(s['range'])
        # a user container with repo begin()/end() is rare; std containers and arrays are modelled directly
        it = self.fresh('it')
        rg = self.fresh('range')
        self.ins(('asg', rg, ('addr', R), self.loc(s)))
        RP = ('d', ('ld', rg))
        self.ins(('asg', it, ('m', 'begin', RP, ()), self.loc(s)))
        h, b, c, e = self.new_block(), self.new_block(), self.new_block(), self.new_block()
        self.jump(h)
        self.attach(h)
        self.term(('br', ('bin', '!=', ('ld', it), ('m', 'end', RP, ())), b.id, e.id, self.loc(s)))
        self.attach(b)
        v = s['var']
        if v.get('isref'):
            r = self.fresh(v['n'])
            self.ins(('asg', r, ('addr', ('d', ('ld', it))), self.loc(s)))
            self.fr.env[v['d']] = ('d', ('ld', r))
        else:
            r = self.fresh(v['n'])
            self.g.types[r[1]] = v['t']
            self.ins(('asg', r, ('ld', ('d', ('ld', it))), self.loc(s)))
            self.fr.env[v['d']] = r
        self.fr.breaks.append(e)
        self.fr.continues.append(c)
        self.stmt(s.get('x'))
        self.fr.breaks.pop()
        self.fr.continues.pop()
        self.jump(c)
        self.attach(c)
        self.ins(('asg', it, ('bin', '+', ('ld', it), ('c', 1)), self.loc(s)))
        self.jump(h)
        self.attach(e)

    def s_switch(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if self.cur is None:
            self.cur = self.new_block()
        v = self.val(s['c_'])
        if self.cur is None:
            return
        sb = self.cur
        self.cur = None
        e = self.new_block()
        cases, dflt = [], [None]
        self.fr.breaks.append(e)
        saved = getattr(self, 'sw', None)
        self.sw = (cases, dflt)
        self.stmt(s.get('x'))
        self.sw = saved
        self.fr.breaks.pop()
        self.jump(e)
        sb.term = ('sw', v, [(c, b) for c, b in cases], dflt[0] if dflt[0] is not None else e.id, self.loc(s))
        self.attach(e)

    def s_case(self, s):
        b = self.new_block()
        self.jump(b)
        self.attach(b)
        c = s['c_'].get('c', s['c_'].get('v'))
        self.sw[0].append((c, b.id))
        if s.get('c2'):
            hi = s['c2'].get('c', s['c2'].get('v'))
            for x in range(c + 1, hi + 1):
                self.sw[0].append((x, b.id))
        self.stmt(s.get('x'))

    def s_default(self, s):
        b = self.new_block()
        self.jump(b)
        self.attach(b)
        self.sw[1][0] = b.id
        self.stmt(s.get('x'))

    def s_break(self, s):
        self.jump(self.fr.breaks[-1])

    def s_continue(self, s):
        self.jump(self.fr.continues[-1])

    def label(self, name):
        if name not in self.fr.labels:
            self.fr.labels[name] = self.new_block()
        return self.fr.labels[name]

    def s_goto(self, s):
        self.jump(self.label(s['label']))

    def s_label(self, s):
        b = self.label(s['label'])
        self.jump(b)
        self.attach(b)
        self.stmt(s.get('x'))

    def s_return(self, s):
        if s.get('e') is not None:
            if self.fr.retref:
                P = self.place(s['e'])
                if self.cur is None:
                    return
                self.ins(('asg', self.fr.ret, ('addr', P), self.loc(s)))
            else:
                e = s['e']
                if e['k'] == 'ctor':
                    self.construct(e, self.fr.ret)
                else:
                    v = self.val(e)
                    if self.cur is None:
                        return
                    self.ins(('asg', self.fr.ret, v, self.loc(s)))
        self.jump(self.fr.cont)

    def s_try(self, s):
        # no try/catch in the library; handlers are treated as unreachable for path rules but reported
        self.g.has_try = True
        self.stmt(s.get('x'))

    # ----------------------------------------------------------- expressions
    def expr(self, n):
        m = getattr(self, 'e_' + n['k'], None)
        if n.get('c') is not None and n['k'] not in ('cond',) and not self.sidefx(n):
            return 'E', ('c', n['c'])
        if m is None:
            return 'E', ('opaque', n['k'])
        return m(n)

    def sidefx(self, n):
        return n['k'] in ('call', 'op') and n.get('fn') is None

    def e_int(self, n):
        v = n['v']
        return 'E', ('c', v)

    def e_null(self, n):
        return 'E', ('c', 0)

    def e_float(self, n):
        return 'E', ('opaque', 'float')

    def e_sizeof(self, n):
        return 'E', ('opaque', 'sizeof')

    def e_str(self, n):
        return 'E', ('s', tuple(n['v']), n.get('w', 1))

    def e_this(self, n):
        return 'E', ('addr', self.fr.this or ('v', 'this'))

    def e_zero(self, n):
        if bare(n['t']) in INTEGERS or n['t'].rstrip().endswith('*'):
            return 'E', ('c', 0)
        return 'E', ('init', bare(n['t']), ())

    def e_ref(self, n):
        if n['dk'] == 'enum':
            return 'E', ('c', n.get('c', 0))
        if n['dk'] == 'fn':
            return 'E', ('fnp', n['d'], n['n'])
        if n['dk'] == 'global':
            return 'P', ('g', n['q'])
        return 'P', self.lookup(n['d'])

    def e_mem(self, n):
        b = n['b']
        if n.get('arrow'):
            v = self.val(b)
            return 'P', ('f', self.deref(v), n['n'])
        return 'P', ('f', self.place(b), n['n'])

    def deref(self, v):
        if v[0] == 'addr':
            return v[1]
        return ('d', v)

    def e_un(self, n):
        op = n['op']
        if op == '*':
            return 'P', self.deref(self.val(n['e']))
        if op == '&':
            return 'E', ('addr', self.place(n['e']))
        if op in ('++', '--'):
            P = self.place(n['e'])
            old = None
            if n.get('post'):
                old = self.fresh('old')
                self.ins(('asg', old, ('ld', P), self.loc(n)))
            e = ('bin', '+' if op == '++' else '-', ('ld', P), ('c', 1))
            t = bare(n['e'].get('t'))
            if t in INTEGERS:
                e = ('cast', t, e, t)
            self.ins(('asg', P, e, self.loc(n)))
            return ('P', P) if old is None else ('E', ('ld', old))
        return 'E', ('un', op, self.val(n['e']))

    def logic(self, n):
        t = self.fresh('b')
        bt, bf, be = self.new_block(), self.new_block(), self.new_block()
        self.cond(n, bt, bf)
        self.attach(bt)
        self.ins(('asg', t, ('c', 1), self.loc(n)))
        self.jump(be)
        self.attach(bf)
        self.ins(('asg', t, ('c', 0), self.loc(n)))
        self.jump(be)
        self.attach(be)
        return 'E', ('ld', t)

    def e_bin(self, n):
        op = n['op']
        if op in ('&&', '||'):
            return self.logic(n)
        if op == ',':
            self.expr(n['x'])
            return self.expr(n['y'])
        if op == '=':
            v = self.val(n['y'])
            P = self.place(n['x'])
            self.ins(('asg', P, v, self.loc(n)))
            return 'P', P
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            v = self.val(n['y'])
            P = self.place(n['x'])
            e = ('bin', op[:-1], ('ld', P), v)
            t = bare(n['x'].get('t'))
            if t in INTEGERS:
                e = ('cast', t, e, t)
            self.ins(('asg', P, e, self.loc(n)))
            return 'P', P
        x = self.val(n['x'])
        y = self.val(n['y'])
        return 'E', ('bin', op, x, y)

    def e_cond(self, n):
        if n.get('c') is not None:
            return 'E', ('c', n['c'])
        t = self.fresh('sel')
        x, y, e = self.new_block(), self.new_block(), self.new_block()
        lv = n.get('lv')
        self.cond(n['c_'], x, y)
        self.attach(x)
        vx = ('addr', self.place(n['x'])) if lv else self.val(n['x'])
        if self.cur is not None:
            self.ins(('asg', t, vx, self.loc(n['x'])))
        self.jump(e)
        self.attach(y)
        vy = ('addr', self.place(n['y'])) if lv else self.val(n['y'])
        if self.cur is not None:
            self.ins(('asg', t, vy, self.loc(n['y'])))
        self.jump(e)
        self.attach(e)
        return ('P', ('d', ('ld', t))) if lv else ('E', ('ld', t))

    def e_sub(self, n):
        t = n['x'].get('t', '')
        i = None
        if '[' in t and not t.rstrip().endswith('*'):
            P = self.place(n['x'])
            return 'P', ('i', P, self.val(n['y']))
        v = self.val(n['x'])
        i = self.val(n['y'])
        return 'P', ('d', ('bin', '+', v, i))

    def e_cast(self, n):
        cc = n['cc']
        if cc == 'IntegralCast':
            return 'E', ('cast', bare(n['t']), self.val(n['e']), bare(n['e'].get('t')))
        if cc in ('IntegralToBoolean', 'PointerToBoolean'):
            return 'E', ('bin', '!=', self.val(n['e']), ('c', 0))
        if cc in ('PointerToIntegral',):
            return 'E', ('cast', bare(n['t']), self.val(n['e']))
        if n['ck'] == 'reinterpret' or cc == 'BitCast':
            if n.get('lv'):
                return 'P', ('d', ('cast', n['t'] + '*', ('addr', self.place(n['e']))))
            return 'E', ('cast', n['t'], self.val(n['e']))
        return self.expr(n['e'])

    def e_init(self, n):
        t = bare(n['t'])
        if t in self.F.recbyt:
            tmp = self.fresh('agg')
            self.agg_init(n, tmp, t)
            return 'P', tmp
        if len(n['a']) == 1 and (t in INTEGERS):
            return self.expr(n['a'][0])
        return 'E', ('init', t, tuple(self.val(a) for a in n['a']))

    def e_lambda(self, n):
        self.lams.append((n, self.fr))
        return 'E', ('lam', len(self.lams) - 1)

    def e_other(self, n):
        return 'E', ('opaque', n.get('cls', 'other'))

    def e_new(self, n):
        a = ()
        if n.get('init'):
            i = n['init']
            if i['k'] == 'ctor':
                a = tuple(self.val(x) for x in i['a'])
            else:
                a = (self.val(i),)
        self.ins(('call', None, {'n': 'new', 'q': 'new', 'of': n['of'], 'kind': 'new'}, None, list(a), self.loc(n)))
        return 'E', ('mk', n['of'], a)

    def e_delete(self, n):
        v = self.val(n['e'])
        self.ins(('call', None, {'n': 'delete', 'q': 'delete', 'kind': 'delete'}, None, [v], self.loc(n)))
        return 'E', ('c', 0)

    def e_throw(self, n):
        v = self.val(n['e']) if n.get('e') else ('c', 0)
        if self.cur is not None:
            self.term(('throw', n.get('tt', '...'), v, self.loc(n)))
        return 'E', ('c', 0)

    # -------------------------------------------------------- constructors
    def construct(self, n, P):
        """construct object described by ctor node n into place P"""
        t = bare(n['t'])
        fn = self.F.fns.get(n.get('fn'))
        if n.get('cm') and len(n['a']) >= 1 and (fn is None or fn.get('defaulted') or fn.get('implicit')):
            self.ins(('asg', P, self.val(n['a'][0]), self.loc(n)))
            return
        if fn is not None and ('body' in fn or fn.get('inits')) and self.can_inline(fn):
            self.call_inline(fn, P, n['a'], n, ctor=True)
            return
        if self.allcalls and fn is not None:
            self.ins(('call', None, {'n': fn['n'], 'q': fn['q'], 'kind': 'repoctor', 'fn': fn['id']}, None, [self.val(x) for x in n['a']], self.loc(n)))
        a = n['a']
        if len(a) == 1 and t.startswith(('__gnu_cxx::__normal_iterator', 'std::_Rb_tree', 'std::_List', 'std::reverse_iterator', 'std::_Bit')):
            # iterator -> const_iterator conversion is the identity
            self.ins(('asg', P, self.val(a[0]), self.loc(n)))
            return
        if t.startswith('std::unique_ptr'):
            self.ins(('asg', P, self.val(a[0]) if a else ('c', 0), self.loc(n)))
            return
        self.ins(('asg', P, ('new', t, tuple(self.val(x) for x in a)), self.loc(n)))

    def e_ctor(self, n):
        t = bare(n['t'])
        if n.get('cm') and len(n['a']) == 1:
            fn = self.F.fns.get(n.get('fn'))
            if fn is None or fn.get('defaulted') or fn.get('implicit'):
                return 'E', self.val(n['a'][0])
        tmp = self.fresh('obj')
        self.g.types[tmp[1]] = t
        self.construct(n, tmp)
        return 'P', tmp

    def ctor_inits(self, fn, fr):
        for i in fn.get('inits', []):
            e = i.get('e')
            if i.get('field'):
                P = ('f', fr.this, i['field'])
                if e is None:
                    continue
                if e['k'] == 'ctor':
                    self.construct(e, P)
                elif e['k'] == 'init' and bare(e['t']) in self.F.recbyt:
                    self.agg_init(e, P, bare(e['t']))
                else:
                    self.ins(('asg', P, self.val(e), (self.F.rel(fn['file']), i.get('l') or fn['l'], fn['n'])))
            elif e is not None and e['k'] == 'ctor':
                # base or delegating: same object
                f2 = self.F.fns.get(e.get('fn'))
                if f2 is not None and self.can_inline(f2):
                    self.call_inline(f2, fr.this, e['a'], e, ctor=True)
                elif e['a']:
                    self.ins(('call', None, {'n': 'basector', 'q': e.get('q'), 'kind': 'pure'}, None, [self.val(a) for a in e['a']], self.loc(e)))

    # --------------------------------------------------------------- calls
    def can_inline(self, fn):
        if fn['id'] in self.stack or len(self.stack) > self.max_depth:
            return False
        if 'body' not in fn and not fn.get('inits'):
            return False
        return self.inline(fn)

    def call_inline(self, fn, this, args, n, ctor=False):
        self.g.inlined.add(fn['id'])
        fr = Frame(fn, self.fr, this)
        caller = self.fr
        # evaluate arguments in the caller
        for p, a in zip(fn['params'], args):
            if p.get('isref'):
                k, e = self.expr(a)
                if k == 'P':
                    r = self.fresh(p['n'] or 'arg')
                    self.ins(('asg', r, ('addr', e), self.loc(n)))
                    fr.env[p['d']] = ('d', ('ld', r))
                else:
                    r = self.fresh(p['n'] or 'arg')
                    self.ins(('asg', r, e, self.loc(n)))
                    fr.env[p['d']] = r
            else:
                r = self.fresh(p['n'] or 'arg')
                self.g.types[r[1]] = p['t']
                if a['k'] == 'lambda':
                    fr.lam[p['d']] = a
                    a['_frame'] = self.fr
                if a['k'] == 'ctor':
                    self.construct(a, r)
                else:
                    D = self.decays(a, p['t'])
                    self.ins(('asg', r, self.val(a) if D is None else ('addr', ('i', D, ('c', 0))), self.loc(n)))
                fr.env[p['d']] = r
            if self.cur is None:
                return 'E', ('c', 0)
        rt = fn['rt']
        fr.ret = self.fresh('ret')
        fr.retref = rt.rstrip().endswith('&')
        self.g.types[fr.ret[1]] = rt
        end = self.new_block()
        fr.cont = end
        saved_sw = getattr(self, 'sw', None)
        self.fr = fr
        self.stack.append(fn['id'])
        if fn.get('mk') in ('ctor', 'defctor', 'copyctor', 'movector'):
            self.ctor_inits(fn, fr)
        self.stmt(fn.get('body'))
        self.jump(end)
        self.stack.pop()
        self.fr = caller
        self.sw = saved_sw
        self.attach(end)
        if ctor or rt == 'void':
            return 'E', ('c', 0)
        if fr.retref:
            return 'P', ('d', ('ld', fr.ret))
        return 'P', fr.ret

    def call_lambda(self, lam, frame, args, n):
        fn = self.F.fns.get(lam['fn'])
        if fn is None or fn['id'] in self.stack:
            return 'E', ('opaque', 'lambda')
        # captures
        caller = self.fr
        fr0 = Frame(fn, self.fr, frame.this)
        self.fr = frame
        binds = {}
        for c in lam.get('caps', []):
            if 'd' not in c:
                continue
            if c.get('byref'):
                binds[c['d']] = self.lookup(c['d'])
            else:
                r = self.fresh(c.get('n', 'cap'))
                if c.get('initcap') and c.get('i'):
                    self.ins(('asg', r, self.val(c['i']), self.loc(n)))
                else:
                    self.ins(('asg', r, ('ld', self.lookup(c['d'])), self.loc(n)))
                binds[c['d']] = r
        self.fr = caller
        for p, a in zip(fn['params'], args):
            if p.get('isref'):
                k, e = ('P', a) if isinstance(a, tuple) else self.expr(a)
                fr0.env[p['d']] = e if k == 'P' else self.place(a)
            else:
                r = self.fresh(p['n'] or 'arg')
                self.ins(('asg', r, ('ld', a) if isinstance(a, tuple) else self.val(a), self.loc(n)))
                fr0.env[p['d']] = r
        fr0.env.update(binds)
        fr0.lexparent = frame
        fr0.ret = self.fresh('ret')
        fr0.retref = fn['rt'].rstrip().endswith('&')
        end = self.new_block()
        fr0.cont = end
        saved = getattr(self, 'sw', None)
        self.fr = fr0
        self.stack.append(fn['id'])
        self.stmt(fn.get('body'))
        self.jump(end)
        self.stack.pop()
        self.fr = caller
        self.sw = saved
        self.attach(end)
        if fr0.retref:
            return 'P', ('d', ('ld', fr0.ret))
        return 'P', fr0.ret

    def find_lambda(self, n):
        if n['k'] == 'lambda':
            return n, self.fr
        if n['k'] == 'ref':
            fr = self.fr
            while fr is not None:
                if n.get('d') in fr.lam:
                    lam = fr.lam[n['d']]
                    return lam, lam.get('_frame', fr)
                fr = getattr(fr, 'lexparent', None)
        return None

    def e_call(self, n):
        fn = self.F.fns.get(n.get('fn'))
        name = n.get('n')
        if fn is not None and not (n.get('vdisp') and self.F.overriders.get(fn['id'])) and self.can_inline(fn):
            this = None
            if n.get('obj') is not None:
                o = n['obj']
                this = self.deref(self.val(o)) if n.get('arrow') else self.place(o)
                if this[0] != 'v':
                    r = self.fresh('this')
                    self.ins(('asg', r, ('addr', this), self.loc(n)))
                    this = ('d', ('ld', r))
            elif fn.get('cls') and not fn.get('static'):
                this = self.fr.this
            return self.call_inline(fn, this, n['a'], n)
        repo = fn is not None or (n.get('q', '').startswith('lexertl'))
        if n.get('obj') is not None:
            return self.method(n, repo)
        q = n.get('q', '')
        a = n['a']
        if not n.get('fn'):
            # indirect call
            c = n.get('callee')
            v = self.val(c) if c else ('opaque', 'callee')
            args = [self.val(x) for x in a]
            r = self.fresh('res')
            self.ins(('call', r, {'n': 'indirect', 'q': 'indirect', 'kind': 'indirect', 'target': v}, None, args, self.loc(n)))
            return 'P', r
        if repo:
            args = [self.arg(x, p) for x, p in zip(a, n.get('pt', []))]
            if self.cur is None:
                return 'E', ('c', 0)
            r = self.fresh('res')
            self.ins(('call', r, {'n': name, 'q': q, 'kind': 'repo', 'fn': n['fn'], 't': n['t']}, None, args, self.loc(n)))
            if n.get('lv'):
                return 'P', ('d', ('ld', r))
            return 'P', r
        if name in ('move', 'forward') and len(a) == 1:
            return self.expr(a[0])
        if name == 'swap' and len(a) == 2:
            x, y = self.place(a[0]), self.place(a[1])
            t = self.fresh('swp')
            self.ins(('asg', t, ('ld', x), self.loc(n)))
            self.ins(('asg', x, ('ld', y), self.loc(n)))
            self.ins(('asg', y, ('ld', t), self.loc(n)))
            return 'E', ('c', 0)
        if name in ('make_unique', 'make_shared'):
            t = n['t']
            inner = t[t.index('<') + 1:]
            inner = inner.split(', std::default_delete')[0].rstrip('>') if ', std::default_delete' in inner else inner[:-1]
            return 'E', ('mk', inner, tuple(self.val(x) for x in a))
        if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'data') and len(a) == 1 and q.startswith('std::'):
            return 'E', ('m', name.lstrip('c') if name != 'cbegin' and name != 'cend' else name[1:], self.place(a[0]), ())
        if name == 'addressof':
            return 'E', ('addr', self.place(a[0]))
        if name in ('next', 'prev') and q.startswith('std::'):
            k = self.val(a[1]) if len(a) > 1 else ('c', 1)
            return 'E', ('bin', '+' if name == 'next' else '-', self.val(a[0]), k)
        if name in ('__assert_fail', 'abort', 'exit', 'terminate'):
            self.term(('unreach',))
            return 'E', ('c', 0)
        if name in ('min', 'max') and len(a) == 2 and q.startswith('std::'):
            x, y, r = self.fresh('x'), self.fresh('y'), self.fresh(name)
            loc = self.loc(n)
            self.ins(('asg', x, self.val(a[0]), loc))
            self.ins(('asg', y, self.val(a[1]), loc))
            b1, b2, e = (self.new_block() for _ in range(3))
            first, second = (x, y) if name == 'max' else (y, x)
            self.term(('br', ('bin', '<', ('ld', first), ('ld', second)), b1.id, b2.id, loc))
            self.attach(b1)
            self.ins(('asg', r, ('ld', y), loc))
            self.jump(e)
            self.attach(b2)
            self.ins(('asg', r, ('ld', x), loc))
            self.jump(e)
            self.attach(e)
            return 'E', ('ld', r)
        if name in PURE_F:
            if name in ('find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count_if'):
                l = self.find_lambda(a[2]) if len(a) == 3 else None
                if l and l[0]['fn'] in self.F.fns and l[0]['fn'] not in self.stack:
                    return self.search(name, a, l, n)
                args = []
                for x in a:
                    args.append(('lamkey', self.lamkey(x)) if self.find_lambda(x) else self.val(x))
                return 'E', ('pure', name, tuple(args))
            return 'E', ('pure', name, tuple(self.val(x) for x in a))
        args = [self.arg(x, p) for x, p in zip(a, n.get('pt', []) + [None] * len(a))]
        r = self.fresh('res')
        self.ins(('call', r, {'n': name, 'q': q, 'kind': 'ext'}, None, args, self.loc(n)))
        return 'P', r

    def search(self, name, a, l, n):
        """std::find_if and its relatives as the loops they stand for"""
        it, last, acc = self.fresh('it'), self.fresh('last'), self.fresh('acc')
        loc = self.loc(n)
        self.ins(('asg', it, self.val(a[0]), loc))
        self.ins(('asg', last, self.val(a[1]), loc))
        if name not in ('find_if', 'find_if_not'):
            self.ins(('asg', acc, ('c', int(name in ('all_of', 'none_of'))), loc))
        h, b, hit, c, e = (self.new_block() for _ in range(5))
        self.jump(h)
        self.attach(h)
        self.term(('br', ('bin', '!=', ('ld', it), ('ld', last)), b.id, e.id, loc))
        self.attach(b)
        k, r = self.call_lambda(l[0], l[1], [('d', ('ld', it))], n)
        r = ('ld', r) if k == 'P' else r
        if name in ('find_if_not', 'all_of'):
            self.term(('br', r, c.id, hit.id, loc))
        else:
            self.term(('br', r, hit.id, c.id, loc))
        self.attach(hit)
        if name == 'count_if':
            self.ins(('asg', acc, ('bin', '+', ('ld', acc), ('c', 1)), loc))
            self.jump(c)
        else:
            if name not in ('find_if', 'find_if_not'):
                self.ins(('asg', acc, ('c', int(name == 'any_of')), loc))
            self.jump(e)
        self.attach(c)
        self.ins(('asg', it, ('bin', '+', ('ld', it), ('c', 1)), loc))
        self.jump(h)
        self.attach(e)
        return 'P', it if name in ('find_if', 'find_if_not') else acc

    def lamkey(self, n):
        return id(n)

    def method(self, n, repo):
        name = n['n']
        cls = n.get('cls', '')
        o = n['obj']
        P = self.deref(self.val(o)) if n.get('arrow') else self.place(o)
        a = n['a']
        if repo:
            args = [self.arg(x, p) for x, p in zip(a, n.get('pt', []))]
            const = n.get('const')
            info = {'n': name, 'q': n.get('q'), 'kind': 'repoconst' if const else 'repo', 'fn': n['fn'], 't': n['t'], 'cls': cls}
            if const and not self.allcalls and not any(x[0] == 'addr' for x in args):
                e = ('m', name, P, tuple(args))
                if n.get('lv'):
                    return 'P', ('d', ('m', '&' + name, P, tuple(args)))
                return 'E', e
            r = self.fresh('res')
            self.ins(('call', r, info, P, args, self.loc(n)))
            if n.get('lv'):
                return 'P', ('d', ('ld', r))
            return 'P', r
        return self.std_method(n, name, cls, P, a)

    def std_method(self, n, name, cls, P, a):
        if cls.startswith('std::unique_ptr'):
            if name == 'get':
                return 'E', ('ld', P)
            if name == 'release':
                t = self.fresh('rel')
                self.ins(('asg', t, ('ld', P), self.loc(n)))
                self.ins(('asg', P, ('c', 0), self.loc(n)))
                return 'P', t
            if name == 'reset':
                self.ins(('asg', P, self.val(a[0]) if a else ('c', 0), self.loc(n)))
                return 'E', ('c', 0)
            if name == 'operator bool':
                return 'E', ('bin', '!=', ('ld', P), ('c', 0))
        if name == 'front' and not a:
            return 'P', ('i', P, ('c', 0))
        if name in ('back', 'top') and not a:
            return 'P', ('back', P)
        if name == 'at' and len(a) == 1:
            return 'P', ('i', P, self.val(a[0]))
        if name == 'swap' and len(a) == 1:
            y = self.place(a[0])
            t = self.fresh('swp')
            self.ins(('asg', t, ('ld', P), self.loc(n)))
            self.ins(('asg', P, ('ld', y), self.loc(n)))
            self.ins(('asg', y, ('ld', t), self.loc(n)))
            return 'E', ('c', 0)
        if name == 'operator=' and len(a) == 1:
            self.ins(('asg', P, self.val(a[0]), self.loc(n)))
            return 'P', P
        if name in ('str',) and not a:
            return 'E', ('m', 'str', P, ())
        if name in PURE_M or (n.get('const') and name not in MUT_KNOWN):
            nm = name
            if nm in ('cbegin', 'cend', 'crbegin', 'crend'):
                nm = nm[1:]
            return 'E', ('m', nm, P, tuple(self.val(x) for x in a))
        byval = name in MUT_KNOWN and name not in ('swap', 'splice', 'merge', 'read', 'get')
        args = [self.val(x) if byval else self.arg(x, p) for x, p in zip(a, n.get('pt', []) + [None] * len(a))]
        if self.cur is None:
            return 'E', ('c', 0)
        r = self.fresh('res')
        self.ins(('call', r, {'n': name, 'q': n.get('q'), 'kind': 'mut', 'cls': cls}, P, args, self.loc(n)))
        if name in ('emplace_back', 'emplace_front') and n.get('lv'):
            return 'P', ('back', P) if name == 'emplace_back' else ('i', P, ('c', 0))
        return 'P', r

    def e_op(self, n):
        op = n['op']
        a = n['a']
        fn = self.F.fns.get(n.get('fn'))
        if op == '()':
            l = self.find_lambda(a[0])
            if l:
                return self.call_lambda(l[0], l[1], a[1:], n)
        if fn is not None and 'body' in fn and self.can_inline(fn):
            if fn.get('cls') and len(fn['params']) == len(a) - 1:
                this = self.place(a[0])
                if this[0] != 'v':
                    r = self.fresh('this')
                    self.ins(('asg', r, ('addr', this), self.loc(n)))
                    this = ('d', ('ld', r))
                return self.call_inline(fn, this, a[1:], n)
            return self.call_inline(fn, None, a, n)
        if self.allcalls and fn is not None and 'body' in fn:
            self.ins(('call', None, {'n': fn['n'], 'q': fn['q'], 'kind': 'repoconst', 'fn': fn['id']}, None, [self.val(x) for x in a], self.loc(n)))
        cls = n.get('cls', '')
        if op == '=' and len(a) == 2:
            # implicit / defaulted / std assignment: value copy
            v = self.val(a[1])
            P = self.place(a[0])
            self.ins(('asg', P, v, self.loc(n)))
            return 'P', P
        if op == '*' and len(a) == 1:
            return 'P', self.deref(self.val(a[0]))
        if op == '->':
            return 'E', self.val(a[0])
        if op == '[]':
            t = bare(a[0].get('t'))
            if t.startswith(('__gnu_cxx::__normal_iterator', 'std::reverse_iterator')) or t.rstrip().endswith('*'):
                return 'P', ('d', ('bin', '+', self.val(a[0]), self.val(a[1])))
            P = self.place(a[0])
            i = self.val(a[1])
            if t.startswith(('std::map', 'std::unordered_map')):
                self.ins(('call', None, {'n': 'operator[]', 'q': n.get('q'), 'kind': 'mut', 'cls': t}, P, [i], self.loc(n)))
            return 'P', ('i', P, i)
        if op in ('++', '--'):
            P = self.place(a[0])
            old = None
            if len(a) == 2:
                old = self.fresh('old')
                self.ins(('asg', old, ('ld', P), self.loc(n)))
            self.ins(('asg', P, ('bin', '+' if op == '++' else '-', ('ld', P), ('c', 1)), self.loc(n)))
            return ('P', P) if old is None else ('E', ('ld', old))
        if op in ('+=', '-=') and bare(a[0].get('t')).startswith(('__gnu_cxx::', 'std::reverse_iterator', 'std::_')):
            P = self.place(a[0])
            v = self.val(a[1])
            self.ins(('asg', P, ('bin', op[0], ('ld', P), v), self.loc(n)))
            return 'P', P
        if op == '+=':
            v = self.val(a[1])
            P = self.place(a[0])
            r = self.fresh('res')
            self.ins(('call', r, {'n': 'append', 'q': n.get('q'), 'kind': 'mut', 'cls': cls}, P, [v], self.loc(n)))
            return 'P', P
        if op in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '&', '|', '%', '*', '/', '^'):
            if len(a) == 2:
                x = self.val(a[0])
                y = self.val(a[1])
                return 'E', ('bin', op, x, y)
            return 'E', ('un', op, self.val(a[0]))
        if op in ('<<', '>>') and len(a) == 2:
            P = self.place(a[0])
            if op == '<<':
                arg = ('fnp', 0, a[1].get('n')) if a[1]['k'] == 'ref' and a[1].get('dk') == 'fn' else self.val(a[1])
                self.ins(('call', None, {'n': '<<', 'q': n.get('q'), 'kind': 'out', 'at': a[1].get('t')}, P, [arg], self.loc(n)))
            else:
                Q = self.place(a[1])
                self.ins(('call', None, {'n': '>>', 'q': n.get('q'), 'kind': 'in', 'at': a[1].get('t')}, P, [('addr', Q)], self.loc(n)))
            return 'P', P
        if op == '!':
            return 'E', ('un', '!', self.val(a[0]))
        # anything else: opaque call with effects on the first operand if it is a non-const lvalue
        args = [self.val(x) for x in a]
        r = self.fresh('res')
        self.ins(('call', r, {'n': 'operator' + op, 'q': n.get('q'), 'kind': 'ext'}, None, args, self.loc(n)))
        return 'P', r
