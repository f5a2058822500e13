#include "common.h"
#include <iostream>
#include <numeric>
#include <dataframe/functional/utils/print.h>
using namespace df;
namespace drv {
std::ostream &serie(std::ostream &o, const Serie &s) { return o << s; }
std::ostream &series(std::ostream &o, const Series &s) { return o << s; }
std::ostream &array(std::ostream &o, const Array &s) { return o << s; }
std::ostream &strings(std::ostream &o, const Strings &s) { return o << s; }
void print(const Serie &s) { utils::print(s); }
}
