"""C22: every public header stands alone and everything public can be used with every character, id and iterator type
it is offered for.

The deciding step is the type checker: each witness below is a translation unit that instantiates one template, or one
family of functions, for one choice of types against the headers as they are; a witness that is refused names the construct.
"""
import os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from facts import CheckError, REPO

CHARS = ['char', 'wchar_t', 'char32_t']
IDS = ['std::uint8_t', 'std::uint16_t', 'std::uint32_t', 'std::size_t']
HEADERS = ['debug', 'dot', 'enum_operator', 'enums', 'generate_cpp', 'generator', 'internals', 'iterator', 'lookup', 'match_results', 'memory_file',
           'narrow', 'range', 'replace', 'rules', 'runtime_error', 'serialise', 'sm_to_csm', 'sm_traits', 'state_machine', 'stream_num',
           'stream_shared_iterator', 'string_token', 'utf_iterators', 'char_traits', 'observer_ptr']


def inc(*hs):
    return ''.join('#include <lexertl/%s.hpp>\n' % h for h in hs)


def iters(c):
    return ['const %s*' % c, 'std::basic_string<%s>::const_iterator' % c, '%s*' % c, 'std::vector<%s>::const_iterator' % c]


def witnesses():
    """(rule, name, source)"""
    w = []
    pre = '#include <cstdint>\n#include <string>\n#include <vector>\n#include <list>\n#include <map>\n#include <sstream>\n#include <iterator>\n'
    for c in CHARS:
        for i in IDS:
            t = '<%s, %s>' % (c, i)
            t3 = '<%s, %s, %s>' % (c, c, i)
            w.append(('build', 'rules, generator and machines of %s with ids of %s' % (c, i), pre + inc('generator') + '''using namespace lexertl;
template class lexertl::basic_rules%s;
template class lexertl::basic_state_machine%s;
template struct lexertl::basic_char_state_machine<%s, %s>;
using r_ = basic_rules%s; using s_ = basic_state_machine%s; using c_ = basic_char_state_machine<%s, %s>;
void f(const r_& r, s_& s, c_& c) {
 basic_generator<r_, s_>::build(r, s); basic_generator<r_, c_>::build(r, c);
 s.minimise(); c.minimise(); s_ t(s); t = s; t.swap(s); s_ u(std::move(t)); s.clear(); (void)s.empty(); (void)s.data(); (void)s.eoi();
 c_ d(c); d = c; d.swap(c); c.clear(); (void)c.empty(); (void)c.size(); }
''' % (t3, t, c, i, t3, t, c, i)))
        w.append(('rules', 'adding rules of %s' % c, pre + inc('rules') + '''using namespace lexertl;
using r_ = basic_rules<%s, %s>; using str = std::basic_string<%s>;
void f(r_& r, const %s* p, const str& s) {
 r.clear(); r.clear(std::uint16_t(0)); r.imbue(r.locale()); (void)r.macros(); (void)r.regexes(); (void)r.regex_strings(); (void)r.features(); (void)r.ids(); (void)r.user_ids(); (void)r.next_dfas(); (void)r.pushes(); (void)r.pops(); r.flags(r.flags()); (void)r.eoi(); (void)r.skip(); (void)r.state(p); (void)r.state(std::uint16_t(0)); r.push_state(p);
 r.insert_macro(p, p); r.insert_macro(p, s); r.insert_macro(p, p, p);
 r.push(p, 1); r.push(p, 1, 2); r.push(s, 1); r.push(s, 1, 2); r.push(p, p, 1); r.push(p, p, 1, 2); 
 r.push(p, p, 1, p); r.push(p, s, 1, p); r.push(p, p, p); r.push(p, s, p); r.push(p, p, p, 1, p); r.push(p, s, 1, p, 2);
 r_ q(r); q = r; (void)r.empty(); (void)r.statemap(); r.reverse(); (void)r.npos(); }
''' % (c, c, c, c)))
        w.append(('rules', 'tokens of text of %s' % c, pre + inc('string_token') + 'template struct lexertl::basic_string_token<%s>;\n' % c))
        for it in iters(c):
            n = it.replace('std::', '')
            for rec in ('', 'recursive_'):
                w.append(('results', '%smatch_results of %s' % (rec, n), pre + inc('lookup', 'iterator', 'state_machine') + '''using namespace lexertl;
using m_ = %smatch_results<%s>; template struct lexertl::%smatch_results<%s>;
template class lexertl::iterator<%s, basic_state_machine<%s>, m_>;
void f(const basic_state_machine<%s>& s, const basic_char_state_machine<%s>&, %s a, %s b) {
 m_ m, n(a, b), o(a, b, false), p(a, b, true, 1); lookup(s, m); m = n; m_ q(m); (void)(m == n); m.reset(a, b); m.clear();
 (void)m.str(); (void)m.substr(0, 0); (void)m.view(); (void)m.subview(0, 0); (void)m.length();
 lexertl::iterator<%s, basic_state_machine<%s>, m_> i(a, b, s), j, k(i); k = i; ++i; i++; (void)(i == j); (void)(i != j); (void)i->id; (void)(*i).id; (void)i.sm(); }
''' % (rec, it, rec, it, it, c, c, c, it, it, it, c)))
        w.append(('results', 'every combination of features with %s' % c, pre + inc('lookup', 'state_machine') + '''using namespace lexertl;
template<std::size_t F> void one(const basic_state_machine<%s>& s) { match_results<const %s*, std::uint16_t, F> m; lookup(s, m);
 recursive_match_results<const %s*, std::uint16_t, F | +feature_bit::recursive | +feature_bit::multi_state> r; lookup(s, r); }
template<std::size_t... F> void all(const basic_state_machine<%s>& s, std::index_sequence<F...>) { (one<F>(s), ...); }
void f(const basic_state_machine<%s>& s) { all(s, std::make_index_sequence<32>{}); one<64>(s); one<95>(s); }
''' % (c, c, c, c, c)))
        w.append(('results', 'list iterators of %s' % c, pre + inc('lookup', 'state_machine') + '''using namespace lexertl;
void f(const basic_state_machine<%s>& s, const std::list<%s>& l) { match_results<std::list<%s>::const_iterator> m(l.begin(), l.end()); lookup(s, m); (void)m.str(); m.clear(); m.reset(l.begin(), l.end()); (void)(m == m); }
''' % (c, c, c)))
        for i in IDS[1:]:
            w.append(('results', 'ids of %s with %s' % (i, c), pre + inc('lookup', 'state_machine') + '''using namespace lexertl;
void f(const basic_state_machine<%s, %s>& s) { match_results<const %s*, %s> m; lookup(s, m); recursive_match_results<const %s*, %s> r; lookup(s, r); }
''' % (c, i, c, i, c, i)))
        w.append(('tools', 'saving and loading machines of %s' % c, pre + inc('serialise') + '''using namespace lexertl;
void f(basic_state_machine<%s>& s, basic_state_machine<%s, std::uint32_t>& t) { std::stringstream ss; save(s, ss); load(ss, s); save(t, ss); load(ss, t); }
''' % (c, c)))
        w.append(('tools', 'generating C++ for machines of %s' % c, pre + inc('generate_cpp') + '''using namespace lexertl;
void f(const basic_state_machine<%s>& s, const basic_state_machine<%s, std::uint32_t>& t) { std::stringstream ss; table_based_cpp::generate("f", s, false, ss); table_based_cpp::generate("f", s, true, ss);
 table_based_cpp::generate("f", t, false, ss); table_based_cpp::generate("f", t, true, ss); }
''' % (c, c)))
        w.append(('tools', 'converting machines of %s' % c, pre + inc('sm_to_csm', 'state_machine') + '''using namespace lexertl;
void f(const basic_state_machine<%s>& s, basic_char_state_machine<%s>& c) { sm_to_csm(s, c); }
''' % (c, c)))
        for i in IDS:
            w.append(('tools', 'every tool on machines of %s with ids of %s' % (c, i), pre + inc('sm_to_csm', 'debug', 'dot', 'serialise', 'generate_cpp', 'replace', 'iterator', 'generator') + '''using namespace lexertl;
using C = %s; using id = %s; using str = std::basic_string<C>; using r_ = basic_rules<C, C, id>; using s_ = basic_state_machine<C, id>; using c_ = basic_char_state_machine<C, id>;
using d_ = basic_debug<s_, C, id>; using o_ = basic_dot<s_, C, id>;
using m_ = match_results<const C*, id>; using n_ = recursive_match_results<const C*, id>;
void f(r_& r, s_& s, c_& c, std::basic_ostream<C>& o, const str& t, const C* p) { sm_to_csm(s, c); std::stringstream ss; save(s, ss); load(ss, s);
 table_based_cpp::generate("f", s, false, ss); table_based_cpp::generate("f", s, true, ss);
 d_::dump(r, o); d_::dump(s, r, o); d_::dump(s, o); d_::dump(c, r, o); d_::dump(c, o); o_::dump(s, r, o);
 str u; auto b = std::back_inserter(u); std::map<id, str> ms; std::map<id, const C*> mp; std::map<id, str(*)(str::const_iterator&, str::const_iterator&)> mg; std::map<id, const C*(*)(const C*, const C*)> mh;
 replace(b, t.cbegin(), t.cend(), s, t); replace(b, t.cbegin(), t.cend(), s, ms); replace(b, t.cbegin(), t.cend(), s, mg); replace(b, p, p, s, p); replace(b, p, p, s, mp); replace(b, p, p, s, mh);
 replace(t, s, t); replace(t, s, ms); replace(t, s, mg); replace(p, s, p); replace(p, s, mp); replace(p, s, mh);
 lexertl::iterator<const C*, s_, m_> i(p, p, s), j; ++i; (void)(i == j); lexertl::iterator<const C*, s_, n_> k(p, p, s), l; ++k; (void)(k != l); }
''' % (c, i)))
        w.append(('tools', 'dumping rules and machines of %s' % c, pre + inc('debug', 'generator') + '''using namespace lexertl;
using r_ = basic_rules<%s, %s>; using s_ = basic_state_machine<%s>; using d_ = basic_debug<s_, %s>; using c_ = basic_char_state_machine<%s>;
void f(r_& r, const s_& s, const c_& c, std::basic_ostream<%s>& o) { d_::dump(r, o); d_::dump(s, r, o); d_::dump(s, o); d_::dump(c, r, o); d_::dump(c, o); }
''' % (c, c, c, c, c, c)))
        w.append(('tools', 'drawing machines of %s' % c, pre + inc('dot', 'generator') + '''using namespace lexertl;
using r_ = basic_rules<%s, %s>; using s_ = basic_state_machine<%s>; using d_ = basic_dot<s_, %s>;
void f(r_& r, const s_& s, std::basic_ostream<%s>& o) { d_::dump(s, r, o); }
''' % (c, c, c, c, c)))
        w.append(('tools', 'replacing in text of %s' % c, pre + inc('replace') + '''using namespace lexertl;
using C = %s; using str = std::basic_string<C>; using I = str::const_iterator;
str g(I&, I&); str gp(const C*, const C*); const C* h(const C*, const C*);
void f(const basic_state_machine<C>& sm, const str& s, const C* p) {
 str o; auto b = std::back_inserter(o); using id = std::uint16_t;
 std::map<id, str> ms; std::map<id, const C*> mp; std::map<id, str(*)(I&, I&)> mg; std::map<id, str(*)(const C*, const C*)> mgp; std::map<id, const C*(*)(const C*, const C*)> mh;
 replace(b, s.cbegin(), s.cend(), sm, s); replace(b, s.cbegin(), s.cend(), sm, ms); replace(b, s.cbegin(), s.cend(), sm, mg);
 replace(b, p, p, sm, p); replace(b, p, p, sm, mp); replace(b, p, p, sm, mh); replace(b, p, p, sm, s); replace(b, p, p, sm, ms);
 replace(s, sm, s); replace(s, sm, ms); replace(s, sm, mg); replace(s, sm, p); replace(s, sm, mp); replace(s, sm, mh);
 replace(p, sm, s); replace(p, sm, ms); replace(p, sm, mgp); replace(p, sm, p); replace(p, sm, mp); replace(p, sm, mh); }
''' % c))
        w.append(('input', 'memory files of %s' % c, pre + inc('memory_file') + 'template class lexertl::basic_memory_file<%s>;\n' % c))
        w.append(('input', 'stream iterators of %s' % c, pre + inc('stream_shared_iterator', 'lookup', 'state_machine') + '''using namespace lexertl;
template class lexertl::basic_stream_shared_iterator<%s>;
void f(const basic_state_machine<%s>& s, std::basic_istream<%s>& i) { using it = basic_stream_shared_iterator<%s>; match_results<it> m{ it(i), it() }; lookup(s, m); }
''' % (c, c, c, c)))
    w.append(('build', 'machines of char32_t built from rules of char', pre + inc('generator', 'lookup') + '''using namespace lexertl;
using r_ = basic_rules<char, char32_t>; template class lexertl::basic_rules<char, char32_t>;
void f(const r_& r, basic_state_machine<char32_t>& s, basic_char_state_machine<char32_t>& c) { basic_generator<r_, basic_state_machine<char32_t>>::build(r, s); basic_generator<r_, basic_char_state_machine<char32_t>>::build(r, c); }
'''))
    w.append(('build', 'the names given to the common choices', pre + inc('generator', 'iterator', 'debug', 'dot', 'memory_file', 'stream_shared_iterator', 'utf_iterators') + '''using namespace lexertl;
rules a; wrules b; u32rules c; state_machine d; wstate_machine e; u32state_machine g; char_state_machine h; wchar_state_machine i; u32char_state_machine j;
void f() { generator::build(a, d); wgenerator::build(b, e); u32generator::build(c, g); char_generator::build(a, h); wchar_generator::build(b, i); u32char_generator::build(c, j); }
smatch k; cmatch l; wsmatch m; wcmatch n; u32smatch o; u32cmatch p; srmatch q; crmatch r; wsrmatch s; wcrmatch t; u32srmatch u; u32crmatch v;
siterator w; citerator x; wsiterator y; wciterator z; u32siterator A; u32citerator B; sriterator C; criterator D; wsriterator E; wcriterator G; u32sriterator H; u32criterator I;
memory_file J; wmemory_file K; u32memory_file L; stream_shared_iterator M; wstream_shared_iterator N; u32stream_shared_iterator O;
void o1(std::ostream& x1, std::wostream& x2, std::basic_ostream<char32_t>& x3) { debug::dump(d, x1); wdebug::dump(e, x2); u32debug::dump(g, x3); debug::dump(a, x1); wdebug::dump(b, x2); u32debug::dump(c, x3);
 dot::dump(d, a, x1); wdot::dump(e, b, x2); u32dot::dump(g, c, x3); }
'''))
    w.append(('input', 'UTF-8 and UTF-16 iterators', pre + inc('utf_iterators', 'lookup', 'state_machine') + '''using namespace lexertl;
template<typename T> void use() { T a, b(a); a = b; (void)(a == b); (void)(a != b); (void)*a; ++a; a++; }
template<typename T, typename U> void both(U b, U e) { T x(b, e), y(e, e); while (x != y) { (void)*x; ++x; x++; } use<T>(); }
template<typename T, typename U> void out(U b, U e) { T x(b, e), y(e, e); while (x != y) { (void)*x; ++x; x++; } use<T>(); }
void f(const char* p, const char16_t* q, const wchar_t* r, const char32_t* s, const std::string& t) {
 both<basic_utf8_in_iterator<const char*, char32_t>>(p, p); both<basic_utf8_in_iterator<std::string::const_iterator, char32_t>>(t.begin(), t.end());
 both<basic_utf16_in_iterator<const char16_t*, char32_t>>(q, q); both<basic_utf16_in_iterator<const wchar_t*, char32_t>>(r, r);
 out<basic_utf8_out_iterator<const char32_t*>>(s, s); out<basic_utf16_out_iterator<const char32_t*, char16_t>>(s, s); out<basic_utf16_out_iterator<const char32_t*, wchar_t>>(s, s); }
void g(const u32state_machine& sm, const char* p, const char16_t* q) { using i8 = basic_utf8_in_iterator<const char*, char32_t>; match_results<i8> m(i8(p, p), i8(p, p)); lookup(sm, m); (void)m.str();
 using i16 = basic_utf16_in_iterator<const char16_t*, char32_t>; recursive_match_results<i16> n(i16(q, q), i16(q, q)); lookup(sm, n); }
'''))
    w.append(('build', 'ranges of iterators', pre + inc('range') + 'template struct lexertl::range<const char*>; template struct lexertl::range<std::string::const_iterator>; template struct lexertl::range<const char32_t*>;\n'))
    return w


def refusals():
    """(name, source with one place left open, what is accepted there, what has to be refused)"""
    w = []
    pre = '#include <cstdint>\n#include <string>\n'
    for what, h, t in (('rules', 'rules', 'basic_rules<char, char, %s>'), ('machines', 'state_machine', 'basic_state_machine<char, %s>'),
                       ('character machines', 'state_machine', 'basic_char_state_machine<char, %s>')):
        for bits in (16, 32):
            w.append(('%s with signed %d bit ids' % (what, bits), pre + inc(h) + 'lexertl::%s x;\n' % (t % '@'), 'std::uint%d_t' % bits, 'std::int%d_t' % bits))
    f = pre + inc('memory_file') + 'void f(lexertl::memory_file& a, lexertl::memory_file& b) { @; }\n'
    w.append(('copying a memory file', f, 'a.open("x")', 'lexertl::memory_file c(a)'))
    w.append(('assigning a memory file', f, 'a.close()', 'a = b'))
    g = pre + inc('iterator', 'state_machine') + 'void f(%s lexertl::state_machine& s, lexertl::siterator& i) { @; }\n'
    w.append(('changing a result through an iterator', g % 'const', '(void)(*i).id', '(*i).id = 1'))
    w.append(('changing a result through an iterator with ->', g % 'const', '(void)i->id', 'i->id = 1'))
    w.append(('changing a machine through an iterator', g % 'const', '(void)i.sm().data()', 'i.sm().clear()'))
    w.append(('changing a shared machine', g % 'const', '(void)s.data()._dfa.size()', 's.data()._dfa.clear()'))
    h = pre + inc('generator') + 'void f(const lexertl::rules& r, const lexertl::wrules& w, lexertl::state_machine& s) { lexertl::@; }\n'
    w.append(('building a machine of char from rules of wchar_t', h, 'generator::build(r, s)', 'generator::build(w, s)'))
    k = pre + inc('rules') + 'void f(%s lexertl::rules& r) { @; }\n'
    for n in ('statemap', 'macros', 'regexes', 'ids', 'user_ids', 'next_dfas', 'pushes', 'pops', 'regex_strings', 'features'):
        w.append(('changing what rules.%s() shows' % n, k % '', '(void)r.%s().size()' % n, '{ auto&& v = r.%s(); v.clear(); }' % n))
    return w


def compile_(src):
    r = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-w', '-ferror-limit=3', '-I', os.path.join(REPO, 'include'), '-x', 'c++', '-'],
                       input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return r.returncode, r.stdout


def run(ctx):
    ctx.rule('header', 'every public header compiles with nothing included before it', 26)
    ctx.rule('build', 'rules, generators and machines compile for every character and id type', 15)
    ctx.rule('rules', 'every way of adding a rule or macro compiles for every character type', 6)
    ctx.rule('results', 'lookup, results and lexing iterators compile for every character, id and iterator type and every combination of features', 39)
    ctx.rule('tools', 'saving, loading, converting, dumping, drawing, generating and replacing compile for every character and id type', 30)
    ctx.rule('input', 'memory files, stream iterators and UTF iterators compile for every character type', 7)
    base = os.path.join(REPO, 'include', 'lexertl')
    there = {n[:-4] for n in os.listdir(base) if n.endswith('.hpp')}
    jobs = [('header', h + '.hpp', inc(h) + 'int main() {}\n') for h in HEADERS] + witnesses()
    probe, out = compile_('#include <string>\nint main() {}\n')
    if probe != 0:
        raise CheckError('the compiler does not work: ' + out[:300])
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_(j[2]), jobs))
    for (rule, name, src), (rc, out) in zip(jobs, res):
        if rc not in (0, 1):
            raise CheckError('compiler failed on %s: %s' % (name, out[-300:]))
        err = next((l for l in out.split('\n') if ' error: ' in l), '')
        err = err.replace(REPO + '/', '')
        ctx.check(rc == 0, rule, name, err.split(' error: ')[0] or 'include/lexertl', err.split(' error: ')[-1] if rc else '')
        ctx.count('translation units type checked')
    ctx.rule('refused', 'signed ids, copies of memory files and changes behind the back of rules, machines and iterators do not compile', 23)
    pairs = refusals()
    with ThreadPoolExecutor(8) as ex:
        good = list(ex.map(lambda j: compile_(j[1].replace('@', j[2])), pairs))
        bad = list(ex.map(lambda j: compile_(j[1].replace('@', j[3])), pairs))
    for (name, src, yes, no), (rc, out), (rb, ob) in zip(pairs, good, bad):
        if rc != 0:
            # the twin without the forbidden construct has to compile, or the refusal means nothing
            err = next((l for l in out.split('\n') if ' error: ' in l), '').replace(REPO + '/', '')
            ctx.bad('refused', name, err.split(' error: ')[0], '%s is refused as well: %s' % (yes, err.split(' error: ')[-1]))
        else:
            ctx.check(rb == 1, 'refused', name, 'include/lexertl', '%s compiles' % no)
        ctx.count('translation units type checked', 2)
    ctx.assume('accepted means accepted by clang in C++17 mode')
