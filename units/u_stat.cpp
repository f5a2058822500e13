#include "common.h"
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/stats/quantile.h>
using namespace df;
namespace drv {
double mk_covariance(const Serie &a, const Serie &b) { return stats::make_covariance(a)(b); }
Serie mk_outliers(const Serie &s, double m) { return stats::make_outliers(s)(m); }
Serie mk_notOutliers(const Serie &s, double m) { return stats::make_notOutliers(s)(m); }
Serie mk_isOutliers(const Serie &s, double m) { return stats::make_isOutliers(s)(m); }
}
