#include "common.h"
#include <dataframe/functional/utils/sort.h>
using namespace df;
using namespace vf;
namespace drv {
Serie sort_d(const Serie &s) { return utils::sort(s); }
Serie sort_g(const GCmp &f, const Serie &s) { return utils::sort(s, f); }
Serie sort_v(const VCmp &f, const Serie &s) { return utils::sort(s, f); }
Serie sort_greater(const Serie &s) { return utils::sort(s, std::greater<>{}); }
}
