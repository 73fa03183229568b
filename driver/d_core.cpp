// Analysis unit: rules -> tokeniser -> parser -> generator -> state machine -> lookup.
// Never linked or run: it only forces clang to instantiate and resolve the library.
#include <lexertl/rules.hpp>
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include <lexertl/iterator.hpp>
#include <lexertl/serialise.hpp>
#include <lexertl/sm_to_csm.hpp>
#include <lexertl/abstemious.hpp>
#include <lexertl/replace.hpp>
#include <lexertl/range.hpp>
#include <sstream>
#include <list>
using namespace lexertl;
template class lexertl::basic_rules<char, char>;
template class lexertl::basic_rules<wchar_t, wchar_t>;
template class lexertl::basic_rules<char32_t, char32_t>;
template class lexertl::basic_rules<char, char32_t>;
template class lexertl::basic_rules<char, char, std::uint8_t>;
template class lexertl::basic_state_machine<char>;
template class lexertl::basic_state_machine<char32_t>;
template struct lexertl::basic_char_state_machine<char>;
template struct lexertl::basic_char_state_machine<char32_t>;
using rules8 = basic_rules<char, char, std::uint8_t>;
using sm8 = basic_state_machine<char, std::uint8_t>;
template class lexertl::basic_state_machine<char, std::uint8_t>;
template struct lexertl::match_results<const char*>;
template struct lexertl::match_results<std::string::const_iterator>;
template struct lexertl::recursive_match_results<const char32_t*>;
template class lexertl::iterator<std::string::const_iterator, state_machine, smatch>;
template class lexertl::iterator<const char*, state_machine, crmatch>;
template struct lexertl::basic_string_token<char>;
template struct lexertl::basic_string_token<wchar_t>;
template struct lexertl::basic_string_token<char32_t>;
template class lexertl::abstemious<char, char>;
template struct lexertl::range<const char*>;


namespace vdrive {
template<class SM, class R> void one(const SM& sm, R& r) { lookup(sm, r); }
// every combination of feature flags that changes which helpers run
void lookups(const state_machine& sm, const u32state_machine& usm, const wstate_machine& wsm)
{
    smatch a; one(sm, a);
    cmatch b; one(sm, b);
    crmatch c; one(sm, c);
    srmatch d; one(sm, d);
    u32cmatch e; one(usm, e);
    u32crmatch f; one(usm, f);
    wcmatch g; one(wsm, g);
    match_results<const char*, std::uint16_t, 0> h; one(sm, h);
    match_results<const char*, std::uint16_t, +feature_bit::bol> i; one(sm, i);
    match_results<const char*, std::uint16_t, +feature_bit::eol> j; one(sm, j);
    match_results<const char*, std::uint16_t, +feature_bit::advance> k; one(sm, k);
    match_results<std::list<char>::const_iterator> l; one(sm, l);
}
void builds(const rules& r, const wrules& wr, const u32rules& ur, const rules8& r8, state_machine& sm, wstate_machine& wsm,
    u32state_machine& usm, sm8& s8, char_state_machine& csm, u32char_state_machine& ucsm,
    basic_char_state_machine<char, std::uint16_t, false>& nfa, const basic_rules<char, char32_t>& mr)
{
    generator::build(r, sm); wgenerator::build(wr, wsm); u32generator::build(ur, usm);
    basic_generator<rules8, sm8>::build(r8, s8);
    char_generator::build(r, csm); u32char_generator::build(ur, ucsm);
    basic_generator<rules, basic_char_state_machine<char, std::uint16_t, false>>::build(r, nfa);
    basic_generator<basic_rules<char, char32_t>, u32state_machine>::build(mr, usm);
}
void misc(state_machine& sm, u32state_machine& usm, wstate_machine& wsm, sm8& s8)
{
    smatch a, b; (void)(a == b); a.str(); a.substr(0, 0); a.view(); a.length(); a.clear(); a.reset(a.first, a.eoi); a.npos(); a.skip();
    srmatch c, d; (void)(c == d);
    cmatch e, f; (void)(e == f);
    siterator i, j; (void)(i == j); (void)(i != j);
    criterator k, l; (void)(k == l);
    std::stringstream ss;
    save(sm, ss); load(ss, sm);
    save(s8, ss); load(ss, s8);
    std::wstringstream ws; save(wsm, ws); load(ws, wsm); save(usm, ss); load(ss, usm); save(usm, ws); load(ws, usm);
    char_state_machine csm; sm_to_csm(sm, csm);
    u32char_state_machine ucsm;
    (void)(csm._sm_vector[0]._states[0] == csm._sm_vector[0]._states[0]);
    // public classes must be copyable / movable the way users use them
    state_machine s2(sm); s2 = sm;
    rules r, r2(r); r = r2;
    srmatch m2(c); m2 = c;
    siterator i2(i); i2 = i;
    char_state_machine c2(csm); c2 = csm;
}
std::string fs(std::string::const_iterator&, std::string::const_iterator&);
std::string fsp(const char*, const char*);
const char* fc(const char*, const char*);
void replaces(const state_machine& sm)
{
    std::string s, fmt; const char* p = "";
    std::map<std::uint16_t, std::string> ms;
    std::map<std::uint16_t, const char*> mc;
    std::map<std::uint16_t, std::string(*)(std::string::const_iterator&, std::string::const_iterator&)> mfs;
    std::map<std::uint16_t, std::string(*)(const char*, const char*)> mfsp;
    std::map<std::uint16_t, const char*(*)(const char*, const char*)> mfc;
    std::string o;
    auto bi = std::back_inserter(o);
    lexertl::replace(bi, s.cbegin(), s.cend(), sm, fmt);
    lexertl::replace(bi, s.cbegin(), s.cend(), sm, ms);
    lexertl::replace(bi, s.cbegin(), s.cend(), sm, mfs);
    lexertl::replace(bi, p, p, sm, p);
    lexertl::replace(bi, p, p, sm, mc);
    lexertl::replace(bi, p, p, sm, mfc);
    lexertl::replace(s, sm, fmt);
    lexertl::replace(s, sm, ms);
    lexertl::replace(s, sm, mfs);
    lexertl::replace(s, sm, p);
    lexertl::replace(s, sm, mc);
    lexertl::replace(s, sm, mfc);
    lexertl::replace(p, sm, fmt);
    lexertl::replace(p, sm, ms);
    lexertl::replace(p, sm, mfsp);
    lexertl::replace(p, sm, p);
    lexertl::replace(p, sm, mc);
    lexertl::replace(p, sm, mfc);
}
}

namespace vclass {
// value semantics of the public and internal data classes
template<class T> void fresh() { T vobj; (void)vobj; }
template<class T> void cleared(T& obj) { obj.clear(); }
template<class T> void swapped(T& a, T& b) { a.swap(b); }
template<class T> bool equal(const T& a, const T& b) { return a == b; }
template<class T, class I> void fresh2(I s, I e) { T vobj(s, e); (void)vobj; }
template<class T, class I> void reset2(T& obj, I s, I e) { obj.reset(s, e); }
template<class T> void dropped(T& obj, typename T::id_type i) { obj.clear(i); }
template<class T> void copied(const T& a) { T vobj(a); (void)vobj; }
template<class T> void assigned(T& vobj, const T& a) { vobj = a; }
template<class T> void cpy(T& a);
template<class T> void clr(T& a) { fresh<T>(); cleared(a); cpy(a); }
template<class T> void cpy(T& a) { copied(a); assigned(a, a); }
template<class T> void swp(T& a) { swapped(a, a); }
template<class M, class I> void res(M& m, I s, I e) { clr(m); equal(m, m); fresh2<M, I>(s, e); reset2<M, I>(m, s, e); }
void all(rules& r, wrules& wr, u32rules& ur, rules8& r8, state_machine& sm, u32state_machine& usm, sm8& s8, char_state_machine& cs,
    u32char_state_machine& ucs, detail::basic_internals<std::uint16_t>& in, detail::basic_internals<std::uint8_t>& in8,
    basic_string_token<char>& st, basic_string_token<char32_t>& ust, detail::basic_re_token<char, char>& rt,
    detail::basic_re_token<char32_t, char32_t>& urt, char_state_machine::dfa& d)
{
    clr(r); clr(wr); clr(ur); clr(r8); clr(sm); clr(usm); clr(s8); clr(cs); clr(ucs); clr(in); clr(in8); clr(st); clr(ust); clr(rt); clr(urt);
    swp(sm); swp(usm); swp(s8); swp(cs); swp(ucs); swp(in); swp(in8); swp(st); swp(ust); swp(rt); swp(urt); swp(d);
    dropped(r, 0); dropped(ur, 0); dropped(r8, 0);
    equal(st, st); equal(ust, ust); equal(rt, rt); equal(urt, urt); equal(d._states[0], d._states[0]);
    smatch a; cmatch b; crmatch c; srmatch e; u32crmatch f;
    res(a, a.first, a.first); res(b, b.first, b.first); res(c, c.first, c.first); res(e, e.first, e.first); res(f, f.first, f.first);
    siterator i; criterator k; equal(i, i); equal(k, k); cpy(i); cpy(k);
}
}
