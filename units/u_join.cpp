#include "common.h"
#include <dataframe/functional/merge.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/unzip.h>
#include <dataframe/functional/utils/zip.h>
using namespace df;
namespace drv {
Serie zip_1(const Serie &a) { return utils::zip(a); }
Serie zip_2(const Serie &a, const Serie &b) { return utils::zip(a, b); }
Serie zip_3(const Serie &a, const Serie &b, const Serie &c) { return utils::zip(a, b, c); }
Serie zip_v(const std::vector<Serie> &l) { return utils::zipVector(l); }
Series unzip_l(const Serie &s, const std::vector<uint32_t> &n) { return utils::unzip(s, n); }
Serie concat_v(const std::vector<Serie> &l) { return utils::concat(l); }
Serie concat_1(const Serie &a) { return utils::concat(a); }
Serie concat_2(const Serie &a, const Serie &b) { return utils::concat(a, b); }
Serie concat_3(const Serie &a, const Serie &b, const Serie &c) { return utils::concat(a, b, c); }
Serie mk_zip(const Serie &a, const Serie &b) { return utils::make_zip(a)(b); }
Serie mk_concat(const Serie &a, const Serie &b) { return utils::make_concat(a)(b); }
Serie merge_2(const Serie &a, const Serie &b, bool cat) { return merge(a, b, cat); }
Serie merge_d(const Serie &a, const Serie &b) { return merge(a, b); }
Serie merge_v1(bool cat, const Serie &a) { return merge(cat, a); }
Serie merge_v2(bool cat, const Serie &a, const Serie &b) { return merge(cat, a, b); }
Serie merge_v3(bool cat, const Serie &a, const Serie &b, const Serie &c) { return merge(cat, a, b, c); }
Serie concat_4(const Serie &s0, const Serie &s1, const Serie &s2, const Serie &s3) { return utils::concat(s0, s1, s2, s3); }
Serie concat_5(const Serie &s0, const Serie &s1, const Serie &s2, const Serie &s3, const Serie &s4) { return utils::concat(s0, s1, s2, s3, s4); }
}
