// Analysis unit: C++ source generation.
#include <lexertl/generate_cpp.hpp>
#include <ostream>
using namespace lexertl;
namespace vdrive {
void gen(const state_machine& sm, const u32state_machine& usm, std::ostream& os)
{
    table_based_cpp::generate("lookup", sm, false, os);
    table_based_cpp::generate("lookup", usm, true, os);
}
}
