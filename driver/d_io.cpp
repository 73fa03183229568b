// Analysis unit: memory mapped files and stream iterators.
#include <algorithm>
#include <cstring>
#include <lexertl/memory_file.hpp>
#include <lexertl/stream_shared_iterator.hpp>
using namespace lexertl;
template class lexertl::basic_memory_file<char>;
template class lexertl::basic_memory_file<char32_t>;
template class lexertl::basic_stream_shared_iterator<char>;
template class lexertl::basic_stream_shared_iterator<wchar_t>;
namespace vdrive {
template<class I> void cmp(I& a, I& b) { (void)(a == b); (void)(a != b); a = b; }
void use(stream_shared_iterator& a, wstream_shared_iterator& b) { cmp(a, a); cmp(b, b); }
}
