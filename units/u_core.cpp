#include "common.h"
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/macros.h>
#include <dataframe/functional/conditional/if.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/functional/utils/reject.h>
using namespace df;
using namespace vf;
namespace drv {
double get_double(const Serie &s, uint32_t i) { return s.get<double>(i); }
Array get_array(const Serie &s, uint32_t i) { return s.get<Array>(i); }
void set_double(Serie &s, uint32_t i, double v) { s.set(i, v); }
void set_array(Serie &s, uint32_t i, const Array &v) { s.set(i, v); }
const Array &as_array(const Serie &s) { return s.asArray(); }
Serie map_s(const SMap &f, const Serie &s) { return map(f, s); }
Serie map_sv(const SVMap &f, const Serie &s) { return map(f, s); }
Serie map_v(const VMap &f, const Serie &s) { return map(f, s); }
Serie map_vv(const VVMap &f, const Serie &s) { return map(f, s); }
Serie map_m2s(const VVSMap2 &f, const Serie &a, const Serie &b) { return map(f, a, b); }
Serie map_m2v(const VVVMap2 &f, const Serie &a, const Serie &b) { return map(f, a, b); }
Serie map_m3v(const VVVVMap3 &f, const Serie &a, const Serie &b, const Serie &c) { return map(f, a, b, c); }
Serie mem_map_s(const SMap &f, const Serie &s) { return s.map(f); }
Serie mem_map_vv(const VVMap &f, const Serie &s) { return s.map(f); }
Serie apply_s(const SMap &f, const Serie &s) { return utils::apply(f, s); }
Serie apply_m2v(const VVVMap2 &f, const Serie &a, const Serie &b) { return utils::apply(f, a, b); }
Serie apply_sv(const SVMap &f, const Serie &s) { return utils::apply(f, s); }
Serie apply_v(const VMap &f, const Serie &s) { return utils::apply(f, s); }
Serie apply_vv(const VVMap &f, const Serie &s) { return utils::apply(f, s); }
Serie apply_m2s(const VVSMap2 &f, const Serie &a, const Serie &b) { return utils::apply(f, a, b); }
Serie apply_m3v(const VVVVMap3 &f, const Serie &a, const Serie &b, const Serie &c) { return utils::apply(f, a, b, c); }
Serie map_is(const IMap &f, const Serie &s) { return map(f, s); }
Serie map_bs(const BMap &f, const Serie &s) { return map(f, s); }
Serie map_m2i(const VVIMap2 &f, const Serie &a, const Serie &b) { return map(f, a, b); }
Serie map_m3s(const VVVSMap3 &f, const Serie &a, const Serie &b, const Serie &c) { return map(f, a, b, c); }
Serie mem_map_sv(const SVMap &f, const Serie &s) { return s.map(f); }
Serie mem_map_v(const VMap &f, const Serie &s) { return s.map(f); }
Serie mk_map_vv(const VVMap &f, const Serie &s) { return make_map(f)(s); }
Serie mk_apply_s(const SMap &f, const Serie &s) { return utils::make_apply(f)(s); }
Serie mk_map_s(const SMap &f, const Serie &s) { return make_map(f)(s); }
Serie filter_s(const SPred &f, const Serie &s) { return filter(f, s); }
Serie filter_v(const VPred &f, const Serie &s) { return filter(f, s); }
std::tuple<Serie, Serie> filter_m2(const VVPred &f, const Serie &a, const Serie &b) { return filter(f, a, b); }
std::tuple<Serie, Serie, Serie> filter_m3(const VVVPred &f, const Serie &a, const Serie &b, const Serie &c) { return filter(f, a, b, c); }
Series filterAll_2(const VVPredN &f, const Serie &a, const Serie &b) { return filterAll(f, a, b); }
Series filterAll_3(const VVVPredN &f, const Serie &a, const Serie &b, const Serie &c) { return filterAll(f, a, b, c); }
Series rejectAll_3(const VVVPredN &f, const Serie &a, const Serie &b, const Serie &c) { return utils::rejectAll(f, a, b, c); }
Serie mk_filter_s(const SPred &f, const Serie &s) { return make_filter(f)(s); }
Serie mk_reject_s(const SPred &f, const Serie &s) { return utils::make_reject(f)(s); }
std::tuple<Serie, Serie> mk_reject_m2(const VVPred &f, const Serie &a, const Serie &b) { return utils::make_reject(f)(a, b); }
Serie mk_cut_v(const VPred &f, const Serie &s) { return utils::make_cut(f)(s); }
Serie mem_filter_s(const SPred &f, const Serie &s) { return s.filter(f); }
Serie mem_filter_v(const VPred &f, const Serie &s) { return s.filter(f); }
Serie mk_filter_v(const VPred &f, const Serie &s) { return make_filter(f)(s); }
Serie reject_s(const SPred &f, const Serie &s) { return utils::reject(f, s); }
Serie reject_v(const VPred &f, const Serie &s) { return utils::reject(f, s); }
std::tuple<Serie, Serie> reject_m2(const VVPred &f, const Serie &a, const Serie &b) { return utils::reject(f, a, b); }
std::tuple<Serie, Serie, Serie> reject_m3(const VVVPred &f, const Serie &a, const Serie &b, const Serie &c) { return utils::reject(f, a, b, c); }
Series rejectAll_2(const VVPredN &f, const Serie &a, const Serie &b) { return utils::rejectAll(f, a, b); }
Serie mk_reject_v(const VPred &f, const Serie &s) { return utils::make_reject(f)(s); }
Serie cut_s(const SPred &f, const Serie &s) { return utils::cut(f, s); }
Serie cut_v(const VPred &f, const Serie &s) { return utils::cut(f, s); }
std::tuple<Serie, Serie> partition_s(const SPred &f, const Serie &s) { return utils::partition(f, s); }
std::tuple<Serie, Serie> partition_v(const VPred &f, const Serie &s) { return utils::partition(f, s); }
FindResult<double> mk_find_s(const SPred &f, const Serie &s) { return makeFind(f)(s); }
FindResult<Array> mk_find_v(const VPred &f, const Serie &s) { return makeFind(f)(s); }
Serie mk_findAll_v(const VPred &f, const Serie &s) { return makeFindAll(f)(s); }
Serie findAll_s(const SPred &f, const Serie &s) { return findAll(f, s); }
Serie findAll_v(const VPred &f, const Serie &s) { return findAll(f, s); }
FindResult<double> find_s(const SPred &f, const Serie &s) { return find(f, s); }
FindResult<Array> find_v(const VPred &f, const Serie &s) { return find(f, s); }
Serie mk_check_s(const Serie &s, const SPred &f) { return cond::make_check(s)(f); }
Serie mk_check_v(const Serie &s, const VPred &f) { return cond::make_check(s)(f); }
Serie check_s(const SPred &f, const Serie &s) { return cond::check(s, f); }
Serie check_v(const VPred &f, const Serie &s) { return cond::check(s, f); }
std::tuple<Serie, Serie> partition_is(const SPredI &f, const Serie &s) { return utils::partition(f, s); }
std::tuple<Serie, Serie> partition_iv(const VPredI &f, const Serie &s) { return utils::partition(f, s); }
Serie findAll_is(const SPredI &f, const Serie &s) { return findAll(f, s); }
Serie findAll_iv(const VPredI &f, const Serie &s) { return findAll(f, s); }
Serie check_is(const SPredI &f, const Serie &s) { return cond::check(s, f); }
Serie check_iv(const VPredI &f, const Serie &s) { return cond::check(s, f); }
FindResult<double> find_is(const SPredI &f, const Serie &s) { return find(f, s); }
FindResult<Array> find_iv(const VPredI &f, const Serie &s) { return find(f, s); }
void forEach_s(const SEach &f, const Serie &s) { forEach(f, s); }
void forEach_v(const VEach &f, const Serie &s) { forEach(f, s); }
void forEach_m2(const VVEach &f, const Serie &a, const Serie &b) { forEach(f, a, b); }
void forEach_m3(const VVVEach &f, const Serie &a, const Serie &b, const Serie &c) { forEach(f, a, b, c); }
void forEach_g(const GEach &f, const Serie &s) { forEach(f, s); }
void mem_forEach_g(const GEach &f, const Serie &s) { s.forEach(f); }
void mem_forEach_v(const VEach &f, const Serie &s) { s.forEach(f); }
void mk_forEach_s(const SEach &f, const Serie &s) { make_forEach(f)(s); }
void mem_forEach_s(const SEach &f, const Serie &s) { s.forEach(f); }
double reduce_s(const SFold &f, const Serie &s, double i) { return reduce(f, s, i); }
Serie reduce_v(const VFold &f, const Serie &s, const Array &i) { return reduce(f, s, i); }
double mem_reduce_s(const SFold &f, Serie &s, double i) { return s.reduce(f, i); }
Serie mem_reduce_v(const VFold &f, Serie &s, const Array &i) { return s.reduce(f, i); }
double mk_reduce_s(const SFold &f, const Serie &s, double i) { return make_reduce(f, i)(s); }
Serie mk_reduce_v(const VFold &f, const Serie &s, const Array &i) { return make_reduce(f, i)(s); }
Serie mk_pipe_2(const SerieFn &f, const SerieFn2 &g, const Serie &s) { return make_pipe(f, g)(s); }
Serie pipe_2(const SerieFn &f, const SerieFn2 &g, const Serie &s) { return pipe(s, f, g); }
Serie pipe_3(const SerieFn &f, const SerieFn2 &g, const SerieFn3 &h, const Serie &s) { return pipe(s, f, g, h); }
Serie mk_pipe_3(const SerieFn &f, const SerieFn2 &g, const SerieFn3 &h, const Serie &s) { return make_pipe(f, g, h)(s); }
Serie mem_pipe_1(const SerieFn &f, const Serie &s) { return s.pipe(f); }
Serie pipe_1(const SerieFn &f, const Serie &s) { return pipe(s, f); }
Serie mem_pipe_2(const SerieFn &f, const SerieFn2 &g, const Serie &s) { return s.pipe(f, g); }
Serie mem_pipe_3(const SerieFn &f, const SerieFn2 &g, const SerieFn3 &h, const Serie &s) { return s.pipe(f, g, h); }
Serie compose_2(const SerieFn &f, const SerieFn2 &g, const Serie &s) { return utils::compose(f, g)(s); }
Serie compose_3(const SerieFn &f, const SerieFn2 &g, const SerieFn3 &h, const Serie &s) { return utils::compose(f, g, h)(s); }
Serie if_s(const Serie &s, const ISCheck &c, const ISTrue &y, const ISFalse &n) { return cond::if_then_else(s, c, y, n); }
Serie if_v(const Serie &s, const IVCheck &c, const IVTrue &y, const IVFalse &n) { return cond::if_then_else(s, c, y, n); }
Serie if_vs(const Serie &s, const IVCheck &c, const IVSTrue &y, const IVSFalse &n) { return cond::if_then_else(s, c, y, n); }
Serie pipe_4(const SerieFn &f0, const SerieFn2 &f1, const SerieFn3 &f2, const SerieFn4 &f3, const Serie &s) { return pipe(s, f0, f1, f2, f3); }
Serie mk_pipe_4(const SerieFn &f0, const SerieFn2 &f1, const SerieFn3 &f2, const SerieFn4 &f3, const Serie &s) { return make_pipe(f0, f1, f2, f3)(s); }
Serie mem_pipe_4(const SerieFn &f0, const SerieFn2 &f1, const SerieFn3 &f2, const SerieFn4 &f3, const Serie &s) { return s.pipe(f0, f1, f2, f3); }
Serie compose_4(const SerieFn &f0, const SerieFn2 &f1, const SerieFn3 &f2, const SerieFn4 &f3, const Serie &s) { return utils::compose(f0, f1, f2, f3)(s); }
Serie pipe_5(const SerieFn &f0, const SerieFn2 &f1, const SerieFn3 &f2, const SerieFn4 &f3, const SerieFn5 &f4, const Serie &s) { return pipe(s, f0, f1, f2, f3, f4); }
Serie mk_pipe_5(const SerieFn &f0, const SerieFn2 &f1, const SerieFn3 &f2, const SerieFn4 &f3, const SerieFn5 &f4, const Serie &s) { return make_pipe(f0, f1, f2, f3, f4)(s); }
Serie mem_pipe_5(const SerieFn &f0, const SerieFn2 &f1, const SerieFn3 &f2, const SerieFn4 &f3, const SerieFn5 &f4, const Serie &s) { return s.pipe(f0, f1, f2, f3, f4); }
Serie compose_5(const SerieFn &f0, const SerieFn2 &f1, const SerieFn3 &f2, const SerieFn4 &f3, const SerieFn5 &f4, const Serie &s) { return utils::compose(f0, f1, f2, f3, f4)(s); }
Serie pipe_6(const SerieFn &f0, const SerieFn2 &f1, const SerieFn3 &f2, const SerieFn4 &f3, const SerieFn5 &f4, const SerieFn6 &f5, const Serie &s) { return pipe(s, f0, f1, f2, f3, f4, f5); }
Serie mk_pipe_6(const SerieFn &f0, const SerieFn2 &f1, const SerieFn3 &f2, const SerieFn4 &f3, const SerieFn5 &f4, const SerieFn6 &f5, const Serie &s) { return make_pipe(f0, f1, f2, f3, f4, f5)(s); }
Serie mem_pipe_6(const SerieFn &f0, const SerieFn2 &f1, const SerieFn3 &f2, const SerieFn4 &f3, const SerieFn5 &f4, const SerieFn6 &f5, const Serie &s) { return s.pipe(f0, f1, f2, f3, f4, f5); }
Serie compose_6(const SerieFn &f0, const SerieFn2 &f1, const SerieFn3 &f2, const SerieFn4 &f3, const SerieFn5 &f4, const SerieFn6 &f5, const Serie &s) { return utils::compose(f0, f1, f2, f3, f4, f5)(s); }
Serie mk_pipe_1(const SerieFn &f, const Serie &s) { return make_pipe(f)(s); }
void forEach_m4(const VVVVEach &f, const Serie &a, const Serie &b, const Serie &c, const Serie &d) { forEach(f, a, b, c, d); }
}
