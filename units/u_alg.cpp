#include "common.h"
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/algebra/cross.h>
using namespace df;
namespace drv {
Serie mk_dot(const Serie &a, const Serie &b) { return algebra::make_dot(a)(b); }
Serie mk_dot_a(const Serie &a, const Array &b) { return algebra::make_dot(a)(b); }
Serie mk_cross(const Serie &a, const Serie &b) { return algebra::make_cross(a)(b); }
}
