#include "common.h"
#include <dataframe/functional/math/equals.h>
using namespace df;
namespace drv {
bool equals_(const Serie &a, const Serie &b) { return math::equals(a, b) && math::approximatelyEquals(a, b, 1); }
Serie masks_(const Serie &a, const Serie &b) { return math::equalityMask(math::equalityMask(a, b), math::approximateEqualityMask(a, b, 1)); }
bool mk_equals(const Serie &a, const Serie &b) { return math::make_equals(a)(b); }
bool mk_approx(const Serie &a, const Serie &b) { return math::make_approximatelyEquals(a)(b); }
bool equalsAll_2(const Serie &a, const Serie &b) { return math::equalsAll(a, b); }
bool equalsAll_3(const Serie &a, const Serie &b, const Serie &c) { return math::equalsAll(a, b, c); }
bool equalsAll_4(const Serie &a, const Serie &b, const Serie &c, const Serie &d) { return math::equalsAll(a, b, c, d); }
bool approxAll_2(const Serie &a, const Serie &b, double eps) { return math::approximatelyEqualsAll(a, b, eps); }
}
