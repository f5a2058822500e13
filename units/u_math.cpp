#include "common.h"
#include <dataframe/functional/map.h>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/scale.h>
#include <dataframe/functional/math/negate.h>
#include <dataframe/functional/math/weightedSum.h>
using namespace df;
namespace drv {
Serie add_2(const Serie &a, const Serie &b) { return math::add(a, b); }
Serie sub_2(const Serie &a, const Serie &b) { return math::sub(a, b); }
Serie add_3(const Serie &a, const Serie &b, const Serie &c) { return math::add(a, b, c); }
Serie add_4(const Serie &a, const Serie &b, const Serie &c, const Serie &d) { return math::add(a, b, c, d); }
Serie sub_3(const Serie &a, const Serie &b, const Serie &c) { return math::sub(a, b, c); }
Serie mk_add(const Serie &a, const Serie &b) { return math::make_add(a)(b); }
Serie mk_sub(const Serie &a, const Serie &b) { return math::make_sub(a)(b); }
Serie mk_mult(const Serie &a, const Serie &b) { return math::make_mult(a)(b); }
Serie mk_div(const Serie &a, const Serie &b) { return math::make_div(a)(b); }
Serie mk_scale(const Serie &a, double b) { return math::make_scale(a)(b); }
Serie mk_scale_v(const Serie &a, const Array &b) { return math::make_scale(a)(b); }
Serie sub_4(const Serie &a, const Serie &b, const Serie &c, const Serie &d) { return math::sub(a, b, c, d); }
}
