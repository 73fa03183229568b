// Analysis unit: rule / machine printing (text dump and DOT).
#include <lexertl/debug.hpp>
#include <lexertl/generator.hpp>
#include <lexertl/stream_num.hpp>
#include <lexertl/dot.hpp>
#include <sstream>
using namespace lexertl;
template class lexertl::basic_debug<state_machine, char>;
template class lexertl::basic_debug<wstate_machine, wchar_t>;
template class lexertl::basic_debug<u32state_machine, char32_t>;
template class lexertl::basic_dot<state_machine, char>;
