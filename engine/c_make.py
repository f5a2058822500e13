"""The reusable forms make_<op>(first)(second): the contract of the operation itself (engine modules loaded before this one)."""
from spec import *

FORMS = [  # driver, operation, unit
    ('mk_find_s', 'find<SPred>', 'u_core'), ('mk_find_v', 'find<VPred>', 'u_core'), ('mk_findAll_v', 'findAll<VPred>', 'u_core'),
    ('mk_add', 'math::add(Serie,Serie)', 'u_math'), ('mk_sub', 'math::sub(Serie,Serie)', 'u_math'), ('mk_mult', 'math::mult(Serie,Serie)', 'u_math'),
    ('mk_div', 'math::div(Serie,Serie)', 'u_math'), ('mk_scale', 'math::scale(Serie,double)', 'u_math'), ('mk_scale_v', 'math::scale(Serie,Array)', 'u_math'),
    ('mk_dot', 'algebra::dot(Serie,Serie)', 'u_alg'), ('mk_dot_a', 'algebra::dot(Serie,Array)', 'u_alg'), ('mk_cross', 'algebra::cross', 'u_alg'),
    ('mk_covariance', 'stats::covariance', 'u_stat'), ('mk_outliers', 'stats::outliers', 'u_stat'), ('mk_notOutliers', 'stats::notOutliers', 'u_stat'),
    ('mk_isOutliers', 'stats::isOutliers', 'u_stat'),
    ('mk_check_s', 'cond::check<SPred>', 'u_core'), ('mk_check_v', 'cond::check<VPred>', 'u_core'),
    ('mk_zip', 'drv::zip_2', 'u_join'), ('mk_concat', 'drv::concat_2', 'u_join'),
    ('mk_equals', 'math::equals', 'u_cmp'),
    ('mk_normals', 'geo::normals', 'u_grid'), ('mk_areas', 'geo::areas', 'u_grid'), ('mk_insar', 'geo::insar', 'u_grid'), ('mk_fringes', 'geo::fringes', 'u_grid'),
]
for _d, _op, _u in FORMS:
    for _c in [c for c in REG if c.name == _op]:
        contract('drv::' + _d, r'^drv::%s\(' % _d, inputs=_c.inputs, props=[p for p in _c.props if not (_d.endswith('findAll_v') and p == 'C05')], unit=_u, mode=_c.mode,
                 site=False, pre=_c.pre, sizes=_c.sizes)(_c.spec)

if any(c.name == 'math::approximatelyEquals' for c in REG):
    import c_cmp

    @contract('drv::mk_approx', r'^drv::mk_approx\(', inputs=lambda c: [c.serie('s'), c.serie('o')], props=('C16',), unit='u_cmp', site=False)
    def s_mk_approx(E, st, a):
        return c_cmp.s_approx(E, st, [a[0], a[1], E.dconst(100 * 2.0 ** -52)])
