#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
I = 'include/bwsl/'
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': state or [],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe, 'hook_needed': None}})

p('C01', 'Grid site numbers and coordinates are inverse bijections',
  'For every grid shape (any dimension, any positive sizes, open or closed), converting a site number to coordinates and back is the identity, the last coordinate varies fastest, and exactly the coordinates in [0, size) in every dimension are reported as on the grid and reached by some site. The number of sites is the product of the sizes, a site number is valid exactly when it is below it, and dimension, sizes and boundary type are the ones the grid was built with.',
  ['configurations', 'inputs'], 'all shapes x all sites x all coordinates in and around the box',
  'The tests convert the 12 sites of one 3x4 grid; strides, higher dimensions, sizes 1, unequal and huge sizes are never exercised.',
  [I+'HyperCubicGrid.hpp', I+'MathUtils.hpp'],
  [('index_to_array / array_to_index row-major strides', I+'MathUtils.hpp'), ('IsOnGrid, IndexIsValid', I+'HyperCubicGrid.hpp')],
  ['HyperCubicGrid::GetCoordinates', 'HyperCubicGrid::GetIndex', 'HyperCubicGrid::IsOnGrid', 'HyperCubicGrid::GetNumSites'])

p('C02', 'Displacements on a closed grid form the translation group',
  'On a closed grid, mapping a pair of sites (a, b) gives the site displaced from the origin by b - a modulo the sizes, and unmapping that site from a gives back b; the mapping composes, has the origin as neutral element and depends on the displacement only. Bringing arbitrary integer coordinates inside the boundaries yields the one on-grid point congruent to them modulo the sizes on closed grids and closed lattices, and leaves them untouched on open ones, where mapping and unmapping agree with the plain displacement whenever it lands on the grid.',
  ['configurations', 'inputs'], 'all shapes x all pairs and triples of sites x all coordinates within several periods of the box',
  'One 3x4 closed grid is mapped back and forth; the value of the mapping is checked for 19 pairs, coordinates outside of the box never.',
  [I+'HyperCubicGrid.hpp', I+'Lattice.hpp'],
  [('GetMappedSite / GetUnMappedSite', I+'HyperCubicGrid.hpp'), ('EnforceBoundaries', I+'HyperCubicGrid.hpp'), ('EnforceBoundaries of the lattice', I+'Lattice.hpp')],
  ['GetMappedSite', 'GetUnMappedSite', 'EnforceBoundaries'])

p('C03', 'Jumps are shortest displacements and add up to windings',
  'The jump between two sites is, in every dimension, the displacement b - a on an open grid, and on a closed grid its representative modulo the size in the half-open interval (-size/2, size/2]. Along every closed walk the jumps add up to a whole number of system sizes in every dimension, and the winding reported for that total is that number of turns, with its sign.',
  ['configurations', 'histories'], 'all shapes (sizes up to more than 2^32) x all pairs of sites, and all closed walks up to a length',
  'Eight jumps of a 3x4 grid are checked; no walk, no winding, no even/odd boundary case of the half-size rule in other sizes.',
  [I+'HyperCubicGrid.hpp', I+'Lattice.hpp'],
  [('GetJump half-size rule', I+'HyperCubicGrid.hpp'), ('GetWinding division', I+'Lattice.hpp')],
  ['HyperCubicGrid::GetJump', 'Lattice::GetWinding'])

p('C04', 'Neighbour lists follow the unit cell and the boundaries',
  'The neighbours of a lattice site are exactly the sites reached by the neighbour directions of the underlying infinite lattice, wrapped around on closed lattices and restricted to the sites inside on open ones, each as many times as there are directions reaching it. Neighbourhood is therefore symmetric (with multiplicity), two sites are reported as neighbours exactly when one is listed among the neighbours of the other, and the coordination of a site is the number of its listed neighbours.',
  ['configurations'], 'all infinite lattices x shapes x boundaries x pairs of sites',
  'Three closed square lattices are probed at 30 pairs, only positively; open boundaries, chain, cubic, triangular and user defined lattices are not tested.',
  [I+'Lattice.hpp', I+'Bravais.hpp'],
  [('ComputeNeighbors', I+'Lattice.hpp'), ('Bravais::GetNeighbor', I+'Bravais.hpp'), ('AreNeighbors / GetCoordination', I+'Lattice.hpp')],
  ['Lattice::GetNeighbors', 'Lattice::AreNeighbors', 'Lattice::GetCoordination'])

p('C05', 'Lattice distances and vectors follow the boundary conditions',
  'On a closed lattice the vector between two sites is a shortest one among all those connecting the first to the periodic images of the second, whatever the shape and the skew of the cell; on an open lattice it is the difference of the two positions. The distance is the length of that vector, is symmetric, zero only from a site to itself and satisfies the triangle inequality, and positions are the real space coordinates of the sites relative to the first one.',
  ['configurations', 'inputs'], 'all infinite lattices (also user defined, skewed) x shapes x boundaries x pairs and triples of sites',
  'About 30 distances on closed square lattices are checked; nothing on open, oblique, elongated or three dimensional lattices.',
  [I+'Lattice.hpp', I+'Bravais.hpp', I+'HyperCubicGrid.hpp'],
  [('ComputeVectors minimum image search', I+'Lattice.hpp'), ('GetVector / GetDistance', I+'Lattice.hpp'), ('ComputePositions', I+'Lattice.hpp')],
  ['Lattice::GetDistance', 'Lattice::GetVector', 'Lattice::GetPosition'])

p('C06', 'Momenta of a closed lattice are its allowed wave vectors',
  'On a closed lattice every momentum is compatible with the periodic boundaries (its phase over each period of the lattice is a multiple of 2 pi), there are as many momenta as sites, all inequivalent modulo reciprocal lattice vectors. Momentum number i is the combination of the reciprocal lattice vectors with coefficients (n - floor(size/2)) / size, where n are the coordinates of site i.',
  ['configurations'], 'all infinite lattices x closed shapes x momentum indices',
  'No test looks at the momenta.',
  [I+'Lattice.hpp', I+'Bravais.hpp'],
  [('ComputeMomenta', I+'Lattice.hpp'), ('Bravais::GetReciprocalSpace', I+'Bravais.hpp')],
  ['Lattice::GetMomentum'])

p('C07', 'The structure factor is the normalized power spectrum of occupations',
  'For all occupations of a closed lattice, component i of the structure factor is the multiplier times |sum over sites of occupation times exp(i k_i.r)|^2 / N^2; hence it does not change when the occupations are translated, and without multiplier its components add up to the sum of the squared occupations divided by N. Accumulating adds these values to what the target holds, and nothing is added (zeros are computed) on open lattices.',
  ['inputs', 'configurations'], 'all occupation vectors over a small alphabet x lattices x translations',
  'No test computes a structure factor.',
  [I+'Lattice.hpp'],
  [('AccumulateSk / ComputeSk', I+'Lattice.hpp')],
  ['Lattice::ComputeSk', 'Lattice::AccumulateSk'])

p('C08', 'Saved lattice tables contain what the queries return',
  'The files with positions, distances, momenta and pairs start with a header with one name per column and then have one row per site (per ordered pair of sites for the pairs, no row for the momenta of an open lattice), in index order. Every row consists of the indices and of numbers that read back exactly as the values returned by the corresponding queries, for every lattice, boundary type and dimension; saving again replaces the file.',
  ['configurations', 'histories'], 'all lattices x boundaries x tables, also over existing files',
  'No test saves anything.',
  [I+'Lattice.hpp', I+'Pairs.hpp'],
  [('SavePositions / SaveDistances / SaveMomenta / SavePairs', I+'Lattice.hpp')],
  ['the written files'])

p('C09', 'Real space, lattice coordinates and reciprocal space are consistent',
  'For every infinite lattice, built in or user defined with a matching inverse matrix, the real space position of integer coordinates is the combination of the lattice vectors, converting it back to lattice coordinates recovers them, and reciprocal space vectors are dual to lattice vectors (scalar product 2 pi times the product of the integer coordinates). Vector and distance between two points are the difference of their positions and its length, neighbours 2k and 2k+1 of a point lie at opposite displacements along the k-th direction, and all neighbours of the built in lattices are at distance 1.',
  ['inputs', 'configurations'], 'all lattices x all integer points in a box and all pairs of them',
  'The tests evaluate three points per built in lattice and the first neighbour of one; the conversion back to lattice coordinates, vectors and distances are not called.',
  [I+'Bravais.hpp'],
  [('GetRealSpace / GetInverseVector / GetReciprocalSpace', I+'Bravais.hpp'), ('GetVector / GetDistance / GetDistanceVector / GetNeighbor', I+'Bravais.hpp')],
  ['Bravais::GetRealSpace', 'Bravais::GetInverseVector', 'Bravais::GetReciprocalSpace', 'Bravais::GetNeighbor', 'Bravais::GetDistance'])

p('C10', 'Ordered pairs of sites and pair numbers are in bijection',
  'For every number of sites, the pair number of two sites and the two sites of a pair number are inverse to each other, the pair numbers are exactly 0, 1, ... up to the number of pairs, which is the square of the number of sites, and the first site varies fastest. All the ways of asking (two sites, one pair, through a grid or a lattice) agree.',
  ['inputs', 'configurations'], 'all numbers of sites up to a bound and large ones x all pairs',
  'One size (489) with ordered pairs s1 <= s2 is tested, and only as a round trip.',
  [I+'Pairs.hpp', I+'HyperCubicGrid.hpp'],
  [('GetPairIndex / GetPair / GetNumPairs', I+'Pairs.hpp'), ('GetPairIndex / GetIndividualIndices of the grid', I+'HyperCubicGrid.hpp')],
  ['pairs::GetPairIndex', 'pairs::GetPair', 'HyperCubicGrid::GetIndividualIndices'])

p('C11', 'Rational arithmetic is exact and in lowest terms',
  'For all rational numbers whose intermediate products are representable, sums, differences, products and quotients of two rationals and of a rational and an integer (on either side) equal the mathematical result. Every rational that is built or computed is in lowest terms with a positive denominator, converts to the nearest floating point number (if numerator and denominator are exact in one) and to the integer truncated towards zero, and reports being an integer exactly when its value is one.',
  ['inputs', 'histories'], 'all numerators and denominators (of both signs) in a box, all operators, all chains of operations up to a depth',
  'Two positive rationals and a handful of results are tested; no negative denominators, no signs, no chains, no conversions.',
  [I+'RationalNum.hpp', I+'MathUtils.hpp'],
  [('Simplify', I+'RationalNum.hpp'), ('arithmetic operators', I+'RationalNum.hpp'), ('get_gcd', I+'MathUtils.hpp')],
  ['GetNum / GetDen of results', 'conversion operators', 'IsInt'])

p('C12', 'Rational comparisons are the order of the values',
  'For all rationals with representable cross products, the six comparisons of two rationals, and of a rational with an integer on either side, give the mathematical order of the values whatever the signs and however the numbers were built or computed. In particular exactly one of less, equal and greater holds, and the order is transitive.',
  ['inputs'], 'all pairs (and triples) of rationals and integers in a box, built from every sign combination',
  'Six comparisons of two positive rationals are tested, mixed comparisons with integers are not.',
  [I+'RationalNum.hpp', I+'RelationalUtils.hpp'],
  [('operator<', I+'RationalNum.hpp'), ('TEMPLATEOVERLOADRELATIONAL', I+'RelationalUtils.hpp')],
  ['the comparison operators'])

p('C13', 'Rational text round trips and malformed text is rejected',
  'Writing a rational to text or to a stream and reading it back gives the same number, and text of the form integer, two slashes, integer with nonzero denominator reads as that quotient in lowest terms (if that is representable). Any other text is reported as a parsing failure and leaves the target as it was; the failure is an exception for strings and the fail state for streams.',
  ['inputs'], 'all texts over a small alphabet up to a length, and all rationals in a box',
  'One string, 3//2, is parsed.',
  [I+'RationalNum.hpp', I+'Exceptions.hpp'],
  [('operator>> / operator<<', I+'RationalNum.hpp'), ('FromString / ToString', I+'RationalNum.hpp')],
  ['FromString', 'ToString', 'stream operators'])

p('C14', 'Derived comparison operators are consistent with the given ones',
  'For every type pair and every strict weak ordering, the operators generated from a less-than (and, in the other variant, an equality) satisfy: equal means neither less nor greater, different is not equal, greater is less with the sides exchanged, less-or-equal and greater-or-equal are the negations of greater and less. The variant that is given an equality uses that one.',
  ['inputs', 'programs'], 'all strict weak orderings of up to four elements, all ordered pairs, all macro variants',
  'Only the template variant is used, through two rationals.',
  [I+'RelationalUtils.hpp'],
  [('OVERLOADRELATIONAL / OVERLOADRELATIONALNOEQ / TEMPLATEOVERLOADRELATIONAL / FDEFINEOVERLOADRELATIONAL', I+'RelationalUtils.hpp')],
  ['the generated operators'])

p('C15', 'Compensated sums lose no more than their guaranteed error',
  'For every sequence of finite numbers (without overflow), the Kahan sum differs from the exact sum by at most about two roundings of the sum of the magnitudes, and the Neumaier sum by at most one rounding of the exact sum plus second order terms, independently of the order and of the number of terms. Count is the number of values added, mean is sum over count, and after a reset the accumulator behaves like a new one.',
  ['inputs', 'histories'], 'all sequences over alphabets of adversarial magnitudes up to a depth, and all periodic sequences with long repetition, interleaved with resets',
  'Four short hand picked sequences are tested; count, mean and reset are not.',
  [I+'accumulators/KahanAccumulator.hpp', I+'accumulators/NeumaierAccumulator.hpp', I+'Accumulators.hpp'],
  [('KahanAccumulator::Add', I+'accumulators/KahanAccumulator.hpp'), ('NeumaierAccumulator::Add', I+'accumulators/NeumaierAccumulator.hpp'), ('apply_accumulator', I+'Accumulators.hpp')],
  ['Sum, Mean, Count after every operation'])

p('C16', 'Running means and variances match their definitions',
  'For every sequence of measurements, the running accumulators (unweighted, weighted, integer) report the count, sum, mean, scaled variance, biased and corrected variances, standard deviation and error on the mean of the measurements, up to rounding proportional to the ratio of their magnitude to their spread (and not, as in the textbook formula, to its square); the variance estimators are not a number below two measurements. Measurements with a weight that is not positive are ignored by the weighted one, which with unit weights agrees with the unweighted one, and after a reset each behaves like a new one.',
  ['inputs', 'histories'], 'all sequences of measurements (and weights) over small alphabets up to a depth, all periodic ones with long repetition, with offsets, interleaved with resets',
  'None of these accumulators is tested.',
  [I+'accumulators/KnuthWelfordAccumulator.hpp', I+'accumulators/WestAccumulator.hpp', I+'accumulators/NaiveIntegerAccumulator.hpp'],
  [('Welford update', I+'accumulators/KnuthWelfordAccumulator.hpp'), ('West update', I+'accumulators/WestAccumulator.hpp'), ('integer sums', I+'accumulators/NaiveIntegerAccumulator.hpp')],
  ['Mean, Sum, Variance, ScaledVariance, StandardDeviation, Error, Count'])

p('C17', 'Checked accumulators report overflow and only overflow',
  'With the accumulator checks enabled, adding a measurement to an accumulator that already holds the largest representable count, or to an integer accumulator whose sum or sum of squares would not be representable, is reported as an overflow and leaves the accumulator exactly as it was. Every other measurement is accepted and has the same effect as without the checks.',
  ['histories', 'inputs', 'configurations'], 'all short histories from restored states at and around every limit, checks on and off',
  'No test enables the checks.',
  [I+'accumulators/KahanAccumulator.hpp', I+'accumulators/NeumaierAccumulator.hpp', I+'accumulators/KnuthWelfordAccumulator.hpp', I+'accumulators/WestAccumulator.hpp', I+'accumulators/NaiveIntegerAccumulator.hpp', I+'accumulators/AccumulatorsExceptions.hpp'],
  [('BWSL_ACCUMULATORS_CHECKS blocks', I+'accumulators/')],
  ['Add throwing AccumulatorOverflow, state afterwards'])

p('C18', 'Histograms report per-bin sums over the total number of measurements',
  'After every history of adding, adding with growth, resizing and resetting, each bin reports the sum of its own measurements divided by the number of measurements of the whole histogram since the last reset (zero for bins without measurements), its own count, and the number of bins is the last one set or grown to. Growing adds empty bins and loses nothing, shrinking drops the last bins and keeps the others and the total count, resetting empties all bins and keeps their number; dividing the results by those of a bin divides all of them by its original value.',
  ['histories'], 'all operation sequences up to a depth over few bins, and long periodic ones',
  'Only a fixed-size histogram filled with unit weights is tested, to 1% accuracy.',
  [I+'HistAccumulator.hpp'],
  [('Add / ForceAdd / Resize / Reset', I+'HistAccumulator.hpp'), ('GetResult / GetResults', I+'HistAccumulator.hpp')],
  ['GetResult, GetResults, GetCount, GetNbins'])

p('C19', 'Monte Carlo move statistics follow the propose/resolve protocol',
  'Every proposal must be resolved by exactly one acceptance, rejection or impossibility before the next one: any other call order, also through recording a whole result, is reported as an invalid sequence naming the move and leaves the statistics unchanged. The accepted, rejected and impossible ratios are their numbers over the number of proposals (zero without proposals), the average probability is the mean of the reported probabilities (zero for impossible ones), a reset forgets everything but the name, and a result carries the status and probability it was built with.',
  ['histories'], 'all sequences of calls up to a depth',
  'The test file for the move statistics contains only the std::vector template example.',
  [I+'mcutils/MoveStats.hpp', I+'mcutils/MoveResult.hpp', I+'mcutils/MoveStatus.hpp'],
  [('UpdateIfProposed / UpdateIfNotProposed', I+'mcutils/MoveStats.hpp'), ('Add', I+'mcutils/MoveStats.hpp'), ('builders', I+'mcutils/MoveResult.hpp')],
  ['ratios, average probability, name, printed form, exceptions'])

p('C20', 'Saving and restoring an object at any point changes nothing',
  'For every history of an accumulator, histogram, move statistics or observable group, saving it to an archive after any prefix and restoring it into a fresh or an already used object gives an object that answers all queries identically and stays identical under any continuation of the history (the name of a move is not part of its saved state). Saving does not change the saved object.',
  ['histories', 'crash_points'], 'all histories up to a depth x all save points x text and binary archives x fresh and used targets',
  'No test serializes anything.',
  [I+'accumulators/KahanAccumulator.hpp', I+'accumulators/NeumaierAccumulator.hpp', I+'accumulators/KnuthWelfordAccumulator.hpp', I+'accumulators/WestAccumulator.hpp', I+'accumulators/NaiveIntegerAccumulator.hpp', I+'HistAccumulator.hpp', I+'mcutils/MoveStats.hpp', I+'ObservableGroup.hpp'],
  [('serialize members', I)],
  ['all queries after restoring and after continuing'])

p('C21', 'Restored random engines continue the same stream',
  'For every Mersenne twister engine and every point of its stream, an engine restored from a saved one produces exactly the numbers the saved one goes on to produce, whatever state the target was in, and saving does not disturb the stream. Restoring from a truncated engine state, or from a text that is none, fails with an exception and never silently continues a different stream.',
  ['histories', 'crash_points', 'fault_sequences'], 'seeds x all numbers of draws around the refill points x archives x all truncation points of the saved text x token corruptions',
  'No test saves an engine.',
  [I+'RNGUtils.hpp'],
  [('load / save / serialize', I+'RNGUtils.hpp')],
  ['streams of numbers after restoring'])

p('C22', 'Observable groups write one consistent row per print',
  'After every history of adding observables, measuring, printing headers and printing results, the output file contains the header line (observable names in order, then Count) written by the last header print, and one line per later print of results: the mean of the values measured since the previous print for every observable, in header order and with the requested precision, and the count of the first one. Measuring an unknown observable throws and changes nothing, adding an existing one keeps its measurements.',
  ['histories'], 'all sequences of calls up to a depth over few observables, several key types',
  'No test includes the header.',
  [I+'ObservableGroup.hpp', I+'accumulators/KahanAccumulator.hpp'],
  [('Measure / PrintHeaders / PrintAndReset / AddObservable', I+'ObservableGroup.hpp')],
  ['content of the output file after every call'])

p('C23', 'Enumerators and their names convert both ways',
  'For every generated enumeration, each enumerator converts to its own name and each name back to its enumerator, enumerators keep their declaration order, and a value outside of the enumeration converts to a text that says so. Any other string, however similar, is refused with an exception whose message contains the string and the name of the enumeration and stays readable as long as the exception lives, and the target is left untouched.',
  ['inputs', 'programs'], 'enumerations of several sizes (also with names that are prefixes of others) x all strings over the alphabet of their names up to a length and all single edits of the names',
  'One enumeration with three names is tested with one value in each direction.',
  [I+'EnumString.hpp'],
  [('BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS', I+'EnumString.hpp')],
  ['ToString, FromString, what()'])

p('C24', 'Linear sequences enumerate the equally spaced points',
  'A linear sequence from first to last in n steps yields the numbers first + k (last - first) / n, for k = 0, 1, ..., to rounding error independent of k, by calling, by prefix and postfix increments (which yield the new and the old position) and by collecting any number of them, which does not advance the sequence itself. Iterating from its beginning to its end, also after it was advanced, visits exactly the first n of them.',
  ['inputs', 'histories'], 'first, last, steps over small alphabets x all sequences of operations up to a depth',
  'No test includes the header.',
  [I+'LinSpace.hpp'],
  [('operator++ / operator() / begin / end / Collect', I+'LinSpace.hpp')],
  ['yielded numbers'])

p('C25', 'Logarithmic sequences enumerate the equal ratio points',
  'A logarithmic sequence from first to last (given directly or as integer powers of a base) in n steps yields first (last/first)^(k/n), for k = 0, 1, ..., to a relative rounding error proportional to k, by calling, by prefix and postfix increments and by collecting any number of them, which does not advance the sequence itself. Iterating from its beginning to its end, also after it was advanced, visits exactly the first n of them.',
  ['inputs', 'histories'], 'first, last, base, exponents, steps over small alphabets x all sequences of operations up to a depth',
  'No test includes the header.',
  [I+'LogSpace.hpp'],
  [('constructors, operator++ / operator() / begin / end / Collect', I+'LogSpace.hpp')],
  ['yielded numbers'])

p('C26', 'Scalar helpers equal their mathematical definitions',
  'For all arguments for which the result is representable, the helpers for square, cube, sign, difference of unsigned numbers (absolute and signed), greatest common divisor, binomial coefficient, step functions and linear interpolation return their mathematical value for every arithmetic type they accept. In particular binomial coefficients are exact for all n up to 61 and any k, zero above n and symmetric, the common divisor divides both arguments and is divided by all their common divisors, and interpolation reproduces the end points.',
  ['inputs'], 'all argument tuples in a box around zero and at the limits of the types',
  'None of them is tested.',
  [I+'MathUtils.hpp'],
  [('square, cube, sgn, absdiff, signeddiff, get_gcd, cbinomial, heaviside, heaviside2, lerp, lerpi', I+'MathUtils.hpp')],
  ['return values'])

p('C27', 'Container helpers equal their elementwise definitions',
  'For all containers of numbers, product, sum, sum of squares, Euclidean norm, largest and smallest element are those of the elements, in any supported container and result type, and the empty product and sum are one and zero. Adding or subtracting a container into another and inverting signs act on every element, return the modified container and leave the right hand side unchanged; the copying inversion leaves its argument unchanged.',
  ['inputs'], 'all contents over small alphabets up to a length x container types',
  'None of them is tested directly.',
  [I+'MathUtils.hpp'],
  [('accumulate_product, accumulate_sum, sum_squared, l2norm, max, min, sum_into, subtract_into, invert, get_inverted', I+'MathUtils.hpp')],
  ['return values and arguments after the call'])

p('C28', 'Weighted choices select with exactly the given weights',
  'For every list of non negative weights with a finite positive sum and every answer of the random engine, the chosen index is the one whose interval of the partial sums contains the drawn number: it is in range, never has zero weight, and over equally spaced answers each index is chosen in proportion to its weight. Choosing from precomputed partial sums gives the same index as from the weights, a choice with probability 0 is never and with probability 1 always taken, and the arguments are not modified.',
  ['inputs', 'schedules'], 'all weight vectors over a small alphabet x all answers of the random engine on a grid including both extremes',
  'None of them is tested.',
  [I+'MathUtils.hpp'],
  [('choose_between / choose_between_psums / choose_with_probability', I+'MathUtils.hpp')],
  ['chosen indices for a scripted engine'])

p('C29', 'The interpolating search finds the first greater element',
  'For every sorted range (also empty, short, long, with repeated elements, unevenly spaced, of integers or floating point numbers) and every value, the search returns the position of the first element greater than the value, or the end if there is none. It terminates and reads nothing outside of the range.',
  ['inputs'], 'all short ranges over a small alphabet, and long ones (above the interpolation threshold) made of few blocks in all ways, x all values at, between and around the elements',
  'No test calls it, and short ranges never reach the interpolating part.',
  [I+'MathUtils.hpp'],
  [('upper_bound', I+'MathUtils.hpp')],
  ['returned position'])

p('C30', 'Files compare equal exactly when their bytes are equal',
  'Two readable files compare equal exactly when they have the same length and bytes, wherever the first difference is and however the operating system splits or interrupts the reads; the files are not modified and the answer is symmetric. A file that cannot be opened compares as different, and an error while reading is never taken for equality.',
  ['inputs', 'fault_sequences'], 'all pairs of small files over a small alphabet, large ones differing at and around buffer boundaries, x all bounded combinations of short reads, interruptions and read errors',
  'No test includes the header.',
  [I+'FileUtils.hpp'],
  [('compare_files', I+'FileUtils.hpp')],
  ['return value'])

p('C31', 'Approximate comparisons are a tolerant version of the exact ones',
  'For all finite numbers, x equals an approximate value v exactly when |x - v| is at most the larger of the absolute tolerance and of the relative tolerance times |v|, whatever the signs of the tolerances given, and the default relative tolerance is a hundred machine epsilons. Less-or-equal and greater-or-equal mean smaller or equal and larger or equal in this sense, the strict comparisons and different are the corresponding ones without equality, and exchanging the sides mirrors the operator.',
  ['inputs'], 'all values, centres and tolerances over an alphabet with exact boundary cases, all operators on both sides',
  'The class is not tested.',
  [I+'Approx.hpp'],
  [('comparison operators, SetAbs, SetRel', I+'Approx.hpp')],
  ['results of the comparisons'])

p('C32', 'Read-only use from several threads is safe and pure',
  'Any number of threads may query the same grid, lattice, infinite lattice or accumulator, or work each on its own objects, at the same time, and all get the answers they would get alone, under every interleaving. Queries do not change the object: repeating or reordering them gives the same answers.',
  ['schedules', 'histories'], 'all interleavings of two or three threads at their synchronization operations up to a preemption bound, with detection of unordered conflicting accesses, and all orders of queries up to a depth',
  'The tests are single threaded and query fresh objects.',
  [I+'Lattice.hpp', I+'HyperCubicGrid.hpp', I+'Bravais.hpp', I+'MathUtils.hpp', I+'RationalNum.hpp', I+'HistAccumulator.hpp', I+'accumulators/'],
  [('const member functions without hidden state', I)],
  ['answers of concurrent queries', 'memory accesses of each thread'])

p('C33', 'Copies are equal and independent',
  'A copied or copy assigned object (accumulators, histogram, move statistics and results, observable group, rational, grid, lattice, infinite lattice, sequence, approximate value) answers every query like the original at that moment, and afterwards changing one never shows in the other, at any point of any history. A moved-to object has the state the source had, and self assignment changes nothing.',
  ['histories'], 'all histories up to a depth x all points of copying x all continuations of either object',
  'No test copies an object and goes on using both.',
  [I+'HistAccumulator.hpp', I+'mcutils/MoveStats.hpp', I+'ObservableGroup.hpp', I+'RationalNum.hpp', I+'HyperCubicGrid.hpp', I+'Lattice.hpp', I+'Bravais.hpp', I+'accumulators/'],
  [('defaulted copy and move operations', I)],
  ['all queries of both objects'])

p('C34', 'Every combination of headers builds and links',
  'Each public header can be included alone, together with any other one in either order, and in several source files of one program, which then builds and links without other sources than those of the documented dependencies. The functions they declare for use by clients can be called from a client program.',
  ['programs', 'configurations'], 'all ordered pairs of public headers, split over translation units in all ways, checks enabled and disabled',
  'Every test program is a single translation unit including one or two headers.',
  [I],
  [('include guards, inline and template definitions', I)],
  ['compiler and linker results'])

p('C35', 'Running out of memory leaves objects usable and unchanged',
  'If memory runs out at any point of growing, resizing or adding to a histogram, of adding an observable or building a lattice, the failure is reported as an exception and nothing is leaked or corrupted: resized histograms and observable groups are as before the call, a growing addition may leave additional empty bins but adds no measurement, and all objects can still be queried and used. Retrying the call with memory available has the result it would have had.',
  ['fault_sequences', 'histories'], 'all histories up to a depth x every allocation of the last call failing',
  'No test makes an allocation fail.',
  [I+'HistAccumulator.hpp', I+'ObservableGroup.hpp', I+'Lattice.hpp'],
  [('order of the updates in Resize and ForceAdd', I+'HistAccumulator.hpp'), ('try_emplace', I+'ObservableGroup.hpp')],
  ['queries after the failed call'])

p('C36', 'The engine dump tool prints the state of the seeded engine',
  'For every non negative seed that fits an unsigned 64 bit integer, the tool prints the state of a 64 bit Mersenne twister freshly seeded with it, in the standard text form, so that an engine read from the output continues that stream, and succeeds. Without a seed it fails and prints nothing.',
  ['inputs'], 'seeds at and around every power of two, and all small ones',
  'No test runs the tool.',
  ['applications/dumpmt.cpp'],
  [('main', 'applications/dumpmt.cpp')],
  ['standard output and exit status'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
