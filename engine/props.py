"""Table of the properties: units to extract, contract modules, replay harness."""
TRUSTED = [
    'clang 18 front end (C++ to LLVM IR, -O1 -Xclang -disable-llvm-passes)',
    'the verifier in /verif/engine (IR semantics, loop summaries, library contracts)',
    'z3 (python API)',
    'abstract callbacks: pure total functions of their arguments (forEach, map and apply: every call is recorded in a ghost trace)',
]
ASSUMPTIONS = [
    'memory allocation succeeds',
    'a container holds fewer than 2^32 doubles and an item fewer than 2^31 (the counts are 32-bit in the API)',
    'doubles are compared as expressions: every floating-point operation is an uninterpreted function with its basic laws only, unless stated otherwise',
    'the contracts of the C++ standard library in engine/lib.py',
]
CORE = ['Serie', 'u_core']
PROPS = {}


def P(pid, title, units, contracts, replay, **kw):
    PROPS[pid] = dict(title=title, units=units, contracts=contracts, replay=replay, **kw)


P('C01', 'Serie storage and addressing', CORE, ['c_serie', 'c_core'], 'C01.cpp')
P('C02', 'bad accesses are rejected', CORE + ['Dataframe', 'u_out'], ['c_serie', 'c_core', 'c_math', 'c_frame', 'c_out'], 'C02.cpp')
P('C03', 'copies are equal and independent', CORE, ['c_serie', 'c_core'], 'C03.cpp')
P('C04', 'map and apply', CORE, ['c_serie', 'c_core'], 'C04.cpp')
P('C05', 'selection', CORE, ['c_serie', 'c_core'], 'C05.cpp', assumptions=['a Serie of item size 0 has no items'])
P('C06', 'forEach and reduce', CORE, ['c_serie', 'c_core'], 'C06.cpp')
P('C07', 'find and check', CORE, ['c_serie', 'c_core', 'c_make'], 'C07.cpp')
JOIN = ['c_serie', 'c_core', 'c_math', 'c_cmp', 'c_join']
P('C08', 'zip and unzip', ['Serie', 'u_join'], JOIN + ['c_make'], 'C08.cpp', assumptions=['the item sizes of a list add up to less than 2^31, and what is asked to be stored to less than 2^32 doubles'])
P('C09', 'concat and merge', ['Serie', 'u_join'], JOIN + ['c_make'], 'C09.cpp', assumptions=['the counts of a list add up to less than 2^32, and what is asked to be stored to less than 2^32 doubles'])
MATH = ['functional/math/' + x for x in ('add', 'sub', 'mult', 'div', 'scale', 'negate', 'weightedSum')]
P('C10', 'partition and parallel_execute', ['Serie', 'u_join', 'u_part'], ['c_serie', 'c_core', 'c_math', 'c_cmp', 'c_join', 'c_part'], 'C10.cpp',
  assumptions=['the function given to parallel_execute is pure: its result, or its failure, depends on the item size, the count and the values of the Serie it gets',
               'std::async runs the task once, in its own thread or not; std::future::get returns the result of the task or throws what the task threw; the task is executed at the launch, '
               'which decides for every schedule because two obligations are discharged: a task writes only its own objects, and what it refers to is unchanged when its result is taken',
               'the values of the joined result are fewer than 2^32'])

P('C11', 'elementwise arithmetic', ['Serie', 'u_math'] + MATH, ['c_serie', 'c_core', 'c_math', 'c_make'], 'C11.cpp', replay_src=['Serie'] + MATH)
ALG = ['functional/algebra/' + x for x in ('dot', 'cross', 'norm', 'transpose')]
P('C12', 'dot, cross, norm and transpose', ['Serie', 'u_core', 'u_alg'] + ALG, ['c_serie', 'c_core', 'c_math', 'c_alg', 'c_make'], 'C12.cpp', replay_src=['Serie'] + ALG)
LIN = ['functional/algebra/det', 'functional/algebra/inv', 'view/Matrix', 'view/Vector']
P('C13', 'det, inv and the views', ['Serie', 'u_core'] + LIN, ['c_serie', 'c_core', 'c_math', 'c_alg', 'c_view'], 'C13.cpp', replay_src=['Serie'] + LIN,
  assumptions=['det and inv: the doubles of the formula are treated as real numbers (mode real); rounding is outside the proof'])
CMP = ['functional/math/minMax', 'functional/math/normalize']
STAT = ['functional/stats/' + x for x in ('mean', 'covariance', 'quantile', 'bins')] + ['functional/math/' + x for x in ('minMax', 'sub', 'mult')]
P('C15', 'statistics', ['Serie', 'u_core', 'u_sort', 'u_stat'] + STAT, ['c_serie', 'c_core', 'c_math', 'c_alg', 'c_cmp', 'c_sort', 'c_stat', 'c_make'], 'C15.cpp', replay_src=['Serie'] + STAT,
  assumptions=['quantiles, outliers and histograms: the doubles of the formulas are treated as real numbers (mode real); rounding is outside the proof'])
P('C16', 'bounds, normalisation and comparisons', ['Serie', 'u_core', 'u_cmp'] + CMP, ['c_serie', 'c_core', 'c_math', 'c_alg', 'c_cmp', 'c_make'], 'C16.cpp', replay_src=['Serie'] + CMP)
GEO = ['functional/geo/' + x for x in ('normals', 'areas', 'insar')] + ['functional/algebra/norm', 'functional/algebra/dot', 'functional/math/div']
P('C17', 'grids, normals, areas, insar and fringes', ['Serie', 'u_core', 'u_grid'] + GEO, ['c_serie', 'c_core', 'c_math', 'c_alg', 'c_geo', 'c_make'], 'C17.cpp',
  replay_src=['Serie'] + GEO, assumptions=['vertex numbers convert to 32-bit unsigned integers (others are undefined behaviour of the C++ conversion)',
                                            'the number of points of a grid times 3 is below 2^32'])
FRAME = ['Serie', 'Dataframe', 'utils/nameOfSerie']
P('C18', 'Dataframe', FRAME, ['c_serie', 'c_core', 'c_math', 'c_frame'], 'C18.cpp', replay_src=FRAME,
  assumptions=['the entries of std::map never move; its iterators give the keys in some fixed order'])
ATTR = ['attributes/' + x for x in ('Components', 'Coordinates', 'Normals', 'Areas', 'Valence', 'EigenValues', 'EigenVectors', 'Manager', 'Decomposer')]
MESH = ['functional/geo/normals', 'functional/geo/areas', 'functional/algebra/norm', 'functional/algebra/dot', 'functional/math/div']
EIG = ['functional/algebra/eigen']
P('C14', 'eigen decomposition', ['Serie'] + EIG, ['c_serie', 'c_core', 'c_math', 'c_alg', 'c_eig'], 'C14.cpp', replay_src=['Serie'] + EIG,
  bounded='what rounding makes of symmetricEigen (proved over the real numbers)', bounded_budget=6,
  backend='; symmetricEigen: polynomial ideal membership by division (sympy) and z3 on linear arithmetic',
  assumptions=['the iteration on one matrix: doubles read as real numbers, M_PI as pi, sin^2 + cos^2 = 1, tan(atan(y)) = y',
               'its result is a function of the matrix (it reads nothing else: a memory obligation)'])
P('C19', 'attributes', FRAME + ATTR + MESH + EIG + ['u_attr'], ['c_serie', 'c_core', 'c_math', 'c_alg', 'c_geo', 'c_frame', 'c_eig', 'c_attr', 'c_dec'], 'C19.cpp',
  replay_src=FRAME + ATTR + MESH + EIG,
  assumptions=['vertex numbers are non-negative and convert to 32-bit unsigned integers', 'the decomposition of one matrix is a function of the matrix',
               'the decomposers of a Manager are distinct objects made by new; each answers as a function of the item size and the name, or raises an exception'])
P('C20', 'memoize', ['Serie', 'u_memo'], ['c_serie', 'c_core', 'c_memo'], 'C20.cpp',
  assumptions=['the memoized function is pure: its result, or its failure, depends on the Serie it gets',
               'the entries of std::map never move; its comparison tells two vectors of integers apart'])
P('C21', 'pipe', CORE, ['c_serie', 'c_core'], 'C21.cpp')
P('C22', 'sort', ['Serie', 'u_core', 'u_sort'], ['c_serie', 'c_core', 'c_math', 'c_sort'], 'C22.cpp',
  assumptions=['sort: the comparison given by the user is a strict weak order (for the default one this is proved, on values without NaN)'])
NA = {}

P('C23', 'random', ['Serie', 'functional/math/random'], ['c_serie', 'c_core', 'c_math', 'c_rand'], 'C23.cpp', replay_src=['Serie', 'functional/math/random'],
  assumptions=['std::mt19937 and std::uniform_real_distribution: draw number k for a seed and bounds is one value that lies between the bounds',
               'the bounds are finite and in order, and the values fewer than 2^32'])
