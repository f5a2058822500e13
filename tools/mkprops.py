#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import props
I = 'include/dataframe/'
F = I + 'functional/'
S = 'src/'
T = []


def prop(id, title, st, over, q, why, files, mech, obs=()):
    T.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(obs), hook_needed=None)))


prop('C01', 'A Serie stores its items exactly and addresses them row by row',
     'A Serie built from an item size, values and a dimension reports exactly those, holds as many items as there are whole rows of values, and returns for item i exactly the values i*itemSize to (i+1)*itemSize-1. Writing an item or a scalar changes that item or scalar and nothing else, and reading it back returns what was written. Resizing leaves every value zero and keeps item size and dimension.',
     ['inputs', 'histories'], 'every item size, count, dimension, value vector, valid index and sequence of writes',
     'The tests read a handful of 1- and 3-component series of fewer than ten items; a wrong offset, a truncation or a write that spills over shows only for other sizes and indices.',
     [I + 'Serie.h', I + 'inline/Serie.hxx', S + 'Serie.cxx'],
     [('constructors compute the count from the values', S + 'Serie.cxx Serie::Serie'), ('row access', S + 'Serie.cxx Serie::value, Serie::setValue'),
      ('typed access', I + 'inline/Serie.hxx Serie::get, Serie::set')], ['value', 'scalar', 'get', 'set', 'asArray', 'count', 'itemSize', 'dimension', 'size'])
prop('C02', 'Out-of-range and wrong-size accesses are rejected and change nothing',
     'Reading or writing an item or a scalar whose index is outside the Serie, and writing an item whose number of values differs from the item size, raises an exception. After the exception the Serie is exactly as before, and no memory outside it has been read or written. Printing a Serie or a Dataframe changes nothing either, reads nothing outside it, and writes only to the stream it was given (dump: the standard error; utils::print: the standard output).',
     ['inputs'], 'every Serie, every 32-bit index outside it, every wrong number of values',
     'Tests try one or two bad indices; the off-by-one index, indices near 2^32 (products that wrap) and reads past the end that happen to return memory need all inputs.',
     [I + 'inline/Serie.hxx', S + 'Serie.cxx', I + 'functional/utils/print.h', S + 'Dataframe.cxx'], [('range checks before every access', S + 'Serie.cxx Serie::value, scalar, setValue, setScalar'),
                                                ('typed access checks', I + 'inline/Serie.hxx')])
prop('C03', 'Copying, assigning and cloning give an equal and independent Serie',
     'A Serie copied, assigned or cloned from another has the same item size, count, dimension and values, whatever the target held before, and self-assignment changes nothing. Later changes to either one never show in the other.',
     ['inputs', 'histories'], 'every source and target Serie, every later write',
     'The tests copy fixed three-dimensional series and compare some of the fields; a field that is not copied, or shared storage, needs other dimensions, shapes and later writes.',
     [I + 'Serie.h', S + 'Serie.cxx'], [('copy constructor, operator=, clone, toSerie', S + 'Serie.cxx')])
prop('C04', 'map and apply call the function once per item, in place and in order',
     'Item i of the result of map (or apply, or the member and reusable forms) is the value of the function on item i of every input and on i, for every item and in order, and the inputs are unchanged. Inputs whose counts differ, and functions whose results differ in size from one item to another, are rejected with an exception. Mapping empty inputs gives an empty result without calling the function.',
     ['inputs', 'programs'], 'every function (taking scalars or arrays, one to three inputs, returning scalars or arrays), every Serie',
     'Tests use a few fixed lambdas and small series; the guarantee is over all functions and all shapes.',
     [F + 'map.h', F + 'utils/apply.h', I + 'inline/Serie.hxx'], [('count check and row loop', F + 'map.h map'), ('apply', F + 'utils/apply.h')])
prop('C05', 'Selections keep exactly the matching items, in order and aligned',
     'filter, cut and findAll return exactly the items for which the predicate holds, in their original order with their values unchanged; reject returns exactly the others, and partition both. With several inputs the same positions are selected in every one, and inputs of different counts are rejected with an exception.',
     ['inputs', 'programs'], 'every predicate (on scalars or arrays, one to three inputs), every Serie',
     'Tests use two or three predicates on short series; losing, duplicating or reordering an item needs a particular pattern of matches.',
     [F + 'filter.h', F + 'find.h', F + 'utils/reject.h', F + 'utils/cut.h', F + 'utils/partition.h'],
     [('filter', F + 'filter.h'), ('reject', F + 'utils/reject.h'), ('partition', F + 'utils/partition.h'), ('findAll', F + 'find.h')])
prop('C06', 'forEach visits every item once in order; reduce is the left fold',
     'forEach calls its function exactly once for every item, in increasing order, with the item and its index, and with several inputs with the items at the same position of all of them. reduce returns the left fold of its function from the initial value over the items in order with their indices, and the initial value when there are none. A callback of the wrong kind (scalar or array) or inputs of different counts are rejected before any call.',
     ['inputs', 'programs'], 'every callback, initial value and Serie',
     'Tests sum a few numbers, which does not see order, repetition balanced by omission, or the index passed.',
     [F + 'forEach.h', F + 'reduce.h'], [('forEach', F + 'forEach.h'), ('reduce', F + 'reduce.h')])
prop('C07', 'find returns the first match; check marks every match',
     'find returns the first item for which the predicate holds together with its index, or says that there is none. check returns one number per item, 1 where the predicate holds and 0 elsewhere.',
     ['inputs', 'programs'], 'every predicate and Serie',
     'Tests look for one value that occurs once; first versus later matches and the no-match case need all patterns.',
     [F + 'find.h', F + 'conditional/check.h'], [('find', F + 'find.h'), ('check', F + 'conditional/check.h')])
prop('C08', 'zip joins items position by position; unzip recovers the parts',
     'Item i of zip (and of zipVector) is made of the items i of all the inputs joined in argument order. unzip with a list of item sizes cuts every item into consecutive pieces of these sizes, one Serie per piece, so that unzipping a zipped result with the inputs\' item sizes gives the inputs back. Invalid series, series of different counts, an empty list and item sizes that do not add up to the item size of the Serie are rejected with an exception.',
     ['inputs'], 'every number of series, item sizes, counts and values',
     'The tests zip two or three short series of fixed sizes.',
     [F + 'utils/zip.h', F + 'utils/unzip.h'], [('zip', F + 'utils/zip.h'), ('unzip', F + 'utils/unzip.h')])
prop('C09', 'concat and merge keep every item once, in the documented order',
     'concat, and merge in concatenating mode, return all the items of all their inputs, one input after the other in argument order. merge in interleaving mode takes the first item of each input in argument order, then the second of each and so on, passing over inputs that have no more items. Inputs of different item sizes are rejected with an exception, and the inputs stay as they were.',
     ['inputs'], 'every number of series, item sizes, counts and values',
     'The tests join two or three short series.',
     [F + 'utils/concat.h', F + 'merge.h'], [('concat', F + 'utils/concat.h'), ('merge', F + 'merge.h')])
prop('C10', 'Partitions cover the items once in order; parallel equals sequential',
     'Partitioning a Serie gives consecutive parts that together hold exactly its items in order, at most as many parts as asked for, with sizes that differ by at most one and the larger parts first; several series are split at the same positions. Zero parts are rejected with an exception. parallel_execute of a function returns the results of the parts joined in the order of the parts, which for an itemwise function is what the function gives on the whole Serie; a part that fails makes the call fail with an exception.',
     ['inputs', 'schedules'], 'every Serie, every n including n larger than the count',
     'The tests split a few series whose counts divide well; remainders and n larger than the count are not settled by them.',
     [F + 'utils/partition_n.h', F + 'utils/parallel_execute.h'], [('partition_n', F + 'utils/partition_n.h'), ('parallel_execute', F + 'utils/parallel_execute.h')])
prop('C11', 'Elementwise arithmetic computes its formula at every position',
     'add, sub, mult, div, scale, negate and weigthedSum return at every position the documented arithmetic combination of the values at that position, whatever the item size, and leave their inputs unchanged (a division by a divider of magnitude below 1e-10 is documented to give zero). Operands whose counts or item sizes do not fit are rejected with an exception.',
     ['inputs'], 'every Serie operand (item size, count, values), scalar, scale vector and weight vector',
     'The tests compute a handful of sums on 1- and 3-component series; the wrong component, operand or weight at some position needs other shapes.',
     [F + 'math', S + 'functional/math'], [('add/sub', F + 'math/add.h, sub.h; ' + S + 'functional/math/add.cxx, sub.cxx'), ('mult/div/scale/negate', S + 'functional/math'),
                                          ('weightedSum', S + 'functional/math/weightedSum.cxx')])
prop('C12', 'dot, cross, norm and transpose compute their algebraic definition per item',
     'For every item, dot is the sum of the products of the components, cross the vector product, norm the Euclidean length, norm2 its square, and transpose the transposed matrix. Operands of unsuitable sizes are rejected and no memory outside the operands is touched.',
     ['inputs'], 'every Serie operand of every shape',
     'The tests check a few orthogonal vectors, for which swapped or dropped terms often cancel.',
     [S + 'functional/algebra/dot.cxx', S + 'functional/algebra/cross.cxx', S + 'functional/algebra/norm.cxx', S + 'functional/algebra/transpose.cxx'],
     [('dot', S + 'functional/algebra/dot.cxx'), ('cross', S + 'functional/algebra/cross.cxx'), ('norm', S + 'functional/algebra/norm.cxx'), ('transpose', S + 'functional/algebra/transpose.cxx')])
prop('C13', 'det, inv and the matrix and vector views agree with linear algebra',
     'For every item that holds a 2x2 or 3x3 matrix, full or symmetric, det is its determinant and inv its inverse in the same layout, where a matrix whose determinant is below 1e-10 in magnitude is rejected as singular. Other item sizes are rejected (det raises an exception, inv gives an invalid Serie). The matrix and vector views address the components of their item and compute products, sums, dot products and norms as in linear algebra.',
     ['inputs'], 'every matrix and vector of values, of every supported layout',
     'The tests invert a few diagonal-dominant matrices with many equal or zero entries; one wrong cofactor shows only for general values.',
     [S + 'functional/algebra/det.cxx', S + 'functional/algebra/inv.cxx', I + 'view/Matrix.h', I + 'view/Vector.h', S + 'view/Matrix.cxx', S + 'view/Vector.cxx'],
     [('det', S + 'functional/algebra/det.cxx'), ('inv', S + 'functional/algebra/inv.cxx'), ('views', S + 'view')])
prop('C14', 'Eigen decomposition satisfies A v = lambda v with sorted values',
     'For every symmetric 2x2 or 3x3 matrix item, the eigen values come in decreasing order, the eigen vectors are of unit length and mutually orthogonal, and the matrix applied to the k-th vector gives the k-th value times that vector, up to the tolerance of the iteration. Values, vectors and the combined system agree, and items of the wrong size are rejected.',
     ['inputs'], 'every symmetric matrix of ordinary magnitude',
     'The tests decompose a few matrices with distinct eigen values; repeated values, zero rows and general orientations are not covered.',
     [S + 'functional/algebra/eigen.cxx'], [('Jacobi iteration', S + 'functional/algebra/eigen.cxx symmetricEigen')])
prop('C15', 'Statistics equal their definitions component by component',
     'mean is the average of every component, covariance the average product of the deviations from the means, quantile the linear interpolation between the two sorted values around the requested rank, IQR the difference of the upper and lower quartiles, and outliers exactly the items the documented rule excludes. In a histogram every value not below the start is counted once, in the bin whose interval holds it (values past the end count in the last). Empty samples are rejected rather than read.',
     ['inputs'], 'every sample: order, size, repeated values, quantile and number of bins',
     'The tests use one sample per function; ties, even and odd sizes, order and the extreme quantiles are not settled.',
     [F + 'stats', S + 'functional/stats'], [('mean, variance, covariance', S + 'functional/stats'), ('quantile', S + 'functional/stats/quantile.cxx'), ('bins', S + 'functional/stats/bins.cxx')])
prop('C16', 'Bounds, normalisation and comparisons hold for every component',
     'minMax returns the least and greatest value of every component. normalize maps a scalar Serie affinely so that its least value becomes 0 and its greatest 1 (when they differ), and gives every non-zero vector item unit length in its own direction. The equality tests hold exactly when shapes and all values agree (within the tolerance for the approximate ones), and the masks say so item by item.',
     ['inputs'], 'every Serie and pair of series, every tolerance',
     'The tests compare series that differ in one place; a value skipped by the scan needs the difference or extreme at a particular place.',
     [F + 'math/minMax.h', F + 'math/equals.h', S + 'functional/math/minMax.cxx', S + 'functional/math/normalize.cxx'],
     [('minMax', S + 'functional/math/minMax.cxx'), ('normalize', S + 'functional/math/normalize.cxx'), ('equals and masks', F + 'math/equals.h')])
prop('C17', 'Geometry: grids, normals and measures follow the mesh',
     'Generated grids have the requested number of points at the documented regular positions. The normal of a triangle is the cross product of its two edges and its area half the length of that normal, for every mesh. The line-of-sight displacement is the dot product of the displacement with the line of sight, and the fringes its fractional position within the fringe spacing.',
     ['inputs'], 'every mesh, resolution, extent and displacement field',
     'No test or one example mesh per function.',
     [F + 'geo', S + 'functional/geo'], [('grids', F + 'geo/cartesian_grid.h'), ('normals', S + 'functional/geo/normals.cxx'), ('insar', S + 'functional/geo/insar.cxx')])
prop('C18', 'A Dataframe is a map from names to series, one entry per name',
     'A Dataframe returns under a name the Serie last stored under it and knows exactly the names added and not removed; storing under a known name replaces its Serie and removing an unknown name changes nothing. Looking up an unknown name in a constant Dataframe gives an invalid Serie and adds nothing. Operations on one name leave all other entries as they were, and setting a new, non-zero common count gives every Serie that count.',
     ['histories', 'inputs'], 'every sequence of additions, replacements, creations, removals and look-ups',
     'The tests perform one short history.',
     [I + 'Dataframe.h', S + 'Dataframe.cxx'], [('add/set/create/del', S + 'Dataframe.cxx')])
prop('C19', 'Attributes resolve a name to the right component of the right Serie',
     'The attribute manager lists, for a requested item size, exactly the names its decomposers derive from the series of the Dataframe, and returns for each listed name the Serie that the name denotes (component, coordinate, normal, area, valence, eigen value or vector). A name that denotes nothing gives an invalid Serie and reads no memory outside the data.',
     ['inputs', 'histories'], 'every Dataframe content, every requested name and item size, every order of registered decomposers',
     'The tests ask for a few names of one Dataframe.',
     [I + 'attributes', S + 'attributes'], [('Manager', S + 'attributes/Manager.cxx'), ('Components', S + 'attributes/Components.cxx'), ('Coordinates', S + 'attributes/Coordinates.cxx')])
prop('C20', 'A memoized function returns what the function would return',
     'Calling a memoized function returns the same result as calling the function itself, on every call and for every sequence of arguments. The function is called at most once for equal arguments until the cache is cleared or entries are evicted.',
     ['histories', 'inputs'], 'every pure function and sequence of arguments, including different arguments with equal hashes',
     'The tests call twice with the same argument; two different arguments that share a key are never tried.',
     [F + 'utils/memoize.h'], [('cache key', F + 'utils/memoize.h')])
prop('C21', 'pipe and compose chain operations in order; conditionals pick per item',
     'pipe and its reusable and member forms give exactly the result of applying the operations one after the other, left to right, and compose right to left. if_then_else gives for every item the value of the branch that the condition selects for that item.',
     ['programs', 'inputs'], 'every list of operations and every Serie',
     'The tests chain operations that commute or are applied to one Serie.',
     [F + 'pipe.h', F + 'utils/compose.h', F + 'conditional/if.h'], [('pipe', F + 'pipe.h'), ('compose', F + 'utils/compose.h'), ('if_then_else', F + 'conditional/if.h')])
prop('C22', 'sort returns the items as an ordered permutation',
     'sort returns exactly the items of its input, each as often as it occurs and with its components kept together, ordered so that no item comes before one that the comparison puts first. The input is unchanged.',
     ['inputs', 'programs'], 'every Serie and every strict weak ordering',
     'The tests sort one short Serie with the default order.',
     [F + 'utils/sort.h'], [('sort', F + 'utils/sort.h')])
prop('C23', 'random fills a Serie with the seeded uniform draws, in order',
     'random returns a Serie of the requested count and item size whose values lie between the two bounds. They are the successive draws of the uniform distribution over these bounds from the standard Mersenne twister (mt19937) started from the seed, item by item and component by component, so that equal arguments give equal Series.',
     ['inputs'], 'every count, item size, pair of bounds and seed',
     'No test draws more than a few numbers, and none compares two calls; a repeated or skipped draw, a truncated seed or a value outside the bounds needs particular shapes and seeds.',
     [F + 'math/random.h', S + 'functional/math/random.cxx'], [('one draw per value', S + 'functional/math/random.cxx')])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for t in T:
            assert len(t['title']) <= 80, t['title']
            f.write(json.dumps(t) + '\n')
    checks, na = [], []
    for t in T:
        i = t['id']
        if i in props.PROPS:
            P = props.PROPS[i]
            note = P.get('note') or ('Proof for all inputs: every obligation of the functions under contract, generated from the IR of the current sources, is discharged by z3. '
                                     'Assumes: standard library contracts (engine/lib.py), the verifier and clang, allocation succeeds, sizes below 2^32; callbacks are pure.')
            if P.get('bounded'):
                note += ' Bounded stand-in, not counted as proved: %s.' % P['bounded']
            checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                               technique=P.get('technique', 'contract-based deductive verification of the LLVM IR of the real functions (own VC generator, z3)'),
                               level=P.get('level', 'proof'), level_note=note))
        else:
            na.append(dict(property=i, reason=props.NA.get(i, 'no check built yet')))
    m = dict(version=1, setup_cmd='python3-vt -m compileall -q engine check.py', hooks=dict(guard='VERIF_HOOKS', enable='no hook is needed: the checks read the unmodified sources', source_commits=[]),
             checks=checks, not_applicable=na,
             notes='One verifier for all checks: engine/ (verification-condition generator for LLVM IR produced by clang from /repo), contracts in engine/c_*.py, instantiations with abstract callbacks in units/, replay harnesses of the same contracts on the real code in replay/. Known findings and fixes: known_findings.txt.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')


main()
