// Analysis unit: the UTF-8 / UTF-16 decoding and encoding iterators.
#include <cstddef>
#include <lexertl/utf_iterators.hpp>
#include <string>
using namespace lexertl;
template class lexertl::basic_utf8_in_iterator<const char*, char32_t>;
template class lexertl::basic_utf8_in_iterator<std::string::const_iterator, char32_t>;
template class lexertl::basic_utf8_out_iterator<const char32_t*>;
template class lexertl::basic_utf8_out_iterator<cutf16_in_utf32_out_iterator>;
template class lexertl::basic_utf16_in_iterator<const char16_t*, char32_t>;
template class lexertl::basic_utf16_in_iterator<const wchar_t*, char32_t>;
template class lexertl::basic_utf16_out_iterator<const char32_t*, char16_t>;
template class lexertl::basic_utf16_out_iterator<cutf8_in_utf32_out_iterator, wchar_t>;
template class lexertl::basic_utf16_out_iterator<cutf8_in_utf32_out_iterator, char16_t>;
template class lexertl::basic_flip_iterator<const char16_t*>;
template class lexertl::basic_flip_iterator<const char32_t*>;
namespace vdrive {
template<class I> void cmp(I a, I b) { (void)(a == b); (void)(a != b); }
template<class I> void arith(I a) { (void)(a + 1); (void)(a - 1); }
template<class I> void in(I a) { cmp(a, a); arith(a); }
template<class I> void out(I a) { cmp(a, a); }
void use(cutf8_in_utf32_out_iterator a, cutf16_in_utf32_out_iterator b, cutf8_in_utf16_out_iterator c,
    cutf16_in_utf8_out_iterator d, basic_utf8_out_iterator<const char32_t*> e, basic_utf16_out_iterator<const char32_t*, char16_t> f,
    basic_utf8_in_iterator<std::string::const_iterator, char32_t> g, cwchar_t_in_utf32_out_iterator h, cutf8_in_wchar_t_out_iterator i,
    basic_flip_iterator<const char16_t*> j, basic_flip_iterator<const char32_t*> k)
{
    in(a); in(b); in(g); in(h); out(c); out(d); out(e); out(f); out(i); out(j); out(k); (void)(a > a); (void)(g > g);
}
}
