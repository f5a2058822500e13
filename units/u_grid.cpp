#include "common.h"
#include <dataframe/functional/geo/cartesian_grid.h>
#include <dataframe/functional/geo/normals.h>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/insar.h>
using namespace df;
namespace drv {
Serie grid_dims(const std::vector<uint32_t> &n, const Array &c, const Array &d) { return grid::cartesian::from_dims(n, c, d); }
Serie mk_normals(const Serie &p, const Serie &t) { return geo::make_normals(p)(t); }
Serie mk_areas(const Serie &p, const Serie &t) { return geo::make_areas(p)(t); }
Serie mk_insar(const Serie &u, const Array &l) { return geo::make_insar(u)(l); }
Serie mk_fringes(const Serie &u, double f) { return geo::make_fringes(u)(f); }
Serie grid_points(const std::vector<uint32_t> &n, const Array &p, const Array &q) { return grid::cartesian::from_points(n, p, q); }
}
