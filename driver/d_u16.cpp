// Analysis unit: 16 bit input characters (two table steps a character).
// Never linked or run: it only forces clang to instantiate and resolve the library.
#include <lexertl/rules.hpp>
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
using namespace lexertl;
using rules16 = basic_rules<char, char16_t>;
using sm16 = basic_state_machine<char16_t>;
namespace vdrive {
template<class SM, class R> void one(const SM& sm, R& r) { lookup(sm, r); }
void all(const rules16& r, sm16& sm)
{
    basic_generator<rules16, sm16>::build(r, sm);
    match_results<const char16_t*> a; one(sm, a);
    recursive_match_results<const char16_t*> b; one(sm, b);
}
}
