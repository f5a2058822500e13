// Harness translation unit prelude: abstract (declared-only) callbacks used to
// instantiate the templates of /repo for ALL callbacks.  Nothing here has a body:
// the verifier gives every one of these operators the contract "pure, total
// function of its arguments" (an uninterpreted function).
#pragma once
#include <cstdint>
#include <algorithm>
#include <array>
#include <future>
#include <map>
#include <set>
#include <tuple>
#include <functional>
#include <cmath>
#include <stdexcept>
#include <dataframe/Serie.h>
#include <dataframe/utils.h>
namespace vf {
struct SMap  { double operator()(double, uint32_t) const; };
struct SVMap { Array  operator()(double, uint32_t) const; };
struct VMap  { double operator()(const Array &, uint32_t) const; };
struct VVMap { Array  operator()(const Array &, uint32_t) const; };
struct IMap { int operator()(double, uint32_t) const; };
struct BMap { bool operator()(double, uint32_t) const; };
struct VVIMap2 { int operator()(const Array &, const Array &, uint32_t) const; };
struct VVVSMap3 { double operator()(const Array &, const Array &, const Array &, uint32_t) const; };
struct SPred { bool operator()(double, uint32_t) const; };
struct VPred { bool operator()(const Array &, uint32_t) const; };
struct SPredI { int operator()(double, uint32_t) const; };
struct VPredI { int operator()(const Array &, uint32_t) const; };
struct VVPred { bool operator()(const Array &, const Array &, uint32_t) const; };
struct VVVPred { bool operator()(const Array &, const Array &, const Array &, uint32_t) const; };
struct VVPredN { bool operator()(const Array &, const Array &) const; };
struct VVVPredN { bool operator()(const Array &, const Array &, const Array &) const; };
struct VVSMap2 { double operator()(const Array &, const Array &, uint32_t) const; };
struct VVVMap2 { Array operator()(const Array &, const Array &, uint32_t) const; };
struct VVVVMap3 { Array operator()(const Array &, const Array &, const Array &, uint32_t) const; };
struct SEach { void operator()(double, uint32_t) const; };
struct VEach { void operator()(const Array &, uint32_t) const; };
struct VVEach { void operator()(const Array &, const Array &, uint32_t) const; };
struct VVVVEach { void operator()(const Array &, const Array &, const Array &, const Array &, uint32_t) const; };
struct VVVEach { void operator()(const Array &, const Array &, const Array &, uint32_t) const; };
struct GEach { void operator()(double, uint32_t) const; void operator()(const Array &, uint32_t) const; };   // both kinds
struct SFold { double operator()(double, double, uint32_t) const; };
struct VFold { Array operator()(const Array &, const Array &, uint32_t) const; };
struct SerieFn { df::Serie operator()(const df::Serie &) const; };
struct SerieFnT { df::Serie operator()(const df::Serie &) const; };   // may raise an exception
struct SerieFnM { df::Serie operator()(const df::Serie &) const; };   // may raise an exception, calls are recorded
struct SerieFn2 { df::Serie operator()(const df::Serie &) const; };
struct SerieFn3 { df::Serie operator()(const df::Serie &) const; };
struct SerieFn4 { df::Serie operator()(const df::Serie &) const; };
struct SerieFn5 { df::Serie operator()(const df::Serie &) const; };
struct SerieFn6 { df::Serie operator()(const df::Serie &) const; };
struct ISCheck { bool operator()(double) const; };
struct ISTrue { double operator()(double, uint32_t, const df::Serie &) const; };
struct ISFalse { double operator()(double, uint32_t, const df::Serie &) const; };
struct IVCheck { bool operator()(const Array &) const; };
struct IVTrue { Array operator()(const Array &, uint32_t, const df::Serie &) const; };
struct IVFalse { Array operator()(const Array &, uint32_t, const df::Serie &) const; };
struct IVSTrue { double operator()(const Array &, uint32_t, const df::Serie &) const; };
struct IVSFalse { double operator()(const Array &, uint32_t, const df::Serie &) const; };
struct GCmp { bool operator()(double, double) const; bool operator()(const Array &, const Array &) const; };
struct VCmp { bool operator()(const Array &, const Array &) const; };
}
