#include "common.h"
#include <dataframe/functional/utils/memoize.h>
using namespace df;
namespace drv {
using Memo = utils::Memoized<vf::SerieFnM>;
Serie memo(const Memo &m, const Serie &s) { return m(s); }
Memo memoized(const vf::SerieFnM &f) { return utils::memoize(f); }
void forget(Memo &m) { m.clear_cache(); }
}
