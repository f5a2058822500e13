#include "common.h"
#include <dataframe/functional/utils/parallel_execute.h>
using namespace df;
namespace drv {
Series part_1(uint32_t n, const Serie &s) { return utils::partition_n(n, s); }
std::vector<Series> part_2(uint32_t n, const Serie &a, const Serie &b) { return utils::partition_n(n, a, b); }
std::vector<Series> part_3(uint32_t n, const Serie &a, const Serie &b, const Serie &c) { return utils::partition_n(n, a, b, c); }
Serie par(const vf::SerieFnT &f, const Serie &s, uint n) { return utils::parallel_execute(f, s, n); }
std::vector<Series> part_4(uint32_t n, const Serie &a, const Serie &b, const Serie &c, const Serie &d) { return utils::partition_n(n, a, b, c, d); }
}
