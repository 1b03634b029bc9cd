"""Titles, statements and anchors of the properties; tools/gen.py writes
properties.jsonl and MANIFEST.json from this table."""

S = 'src/pyhipp/'
PROPS = {}
NA = {}


def P(id, title, statement, over, text, why, files, mech, technique,
      level_note, observe=(), na=None):
    PROPS[id] = dict(
        id=id, title=title, statement=statement, over=over, text=text,
        why=why, files=[S + f for f in files],
        mech=[(n, S + w) for n, w in mech],
        technique=technique, level_note=level_note, observe=list(observe))
    if na:
        NA[id] = na


BFS = ('explicit-state search over operation histories, each replayed on the '
       'real objects and compared with a reference model after every step')
TREE = ('stateless exhaustive exploration of the real code over a bounded '
        'choice tree of inputs and environment answers, with an independent '
        'reference oracle')
TRUST = 'Exhaustive within the stated bounds; nothing beyond them. Trusts the '\
        'reference model written from the documentation, Python and NumPy.'

P('C01', 'Nested dictionary behaves as a tree addressed by paths',
  'After any history of constructions, stores, reads, deletions, updates, '
  'pops and copies, a nested data dictionary holds exactly the tree that the '
  'history describes: a slash-separated path names the entry reached by '
  'following its components (empty components ignored, an empty path is '
  'refused), writing adds or replaces exactly the named entry (a missing '
  'intermediate level is a KeyError and is not made up), and reading several '
  'keys returns them in order. Lookups, membership tests (of direct '
  'children), key/value/item listings, length and copies agree with that '
  'tree, missing entries are reported with a KeyError and change nothing. '
  'Copies are independent of the original to the depth they document.',
  ['histories', 'inputs'],
  'all operation histories up to depth 3 (4 in the thorough tier) from three '
  'initial containers, over a menu that covers every public operation on '
  'paths of up to three components',
  'Existing tests build two containers and read them; sharing between '
  'levels and copies and failed operations only show after several steps.',
  ['core/containers/data_dict.py'],
  [('path resolution and item access', 'core/containers/data_dict.py')],
  BFS, TRUST, ['DataDict public methods'])

P('C02', 'Column table: every row operation acts on all columns alike',
  'After any history of column writes, selections, sub-table picks, '
  'concatenations, stacking, copies and pickling, a table holds exactly the '
  'named columns in order with their last values, and every row '
  'selection (slice, index, boolean) selects the same rows of every column. '
  'Concatenating tables appends the rows of the others, in order, for exactly '
  'the columns of the first (a column missing in another is an error), '
  'stacking columns into a matrix keeps their order, and a copy never shares '
  'memory with its origin.',
  ['histories', 'inputs'],
  'all histories up to depth 3 (4) from three tables with 0-4 rows, and all '
  'constructor, selection, concatenation and stacking cases of the alphabets',
  'There is no test of the table at all.',
  ['core/containers/data_table.py'],
  [('row selection, stacking, concatenation',
    'core/containers/data_table.py')],
  BFS + '; ' + TREE, TRUST, ['DataTable public methods'])

P('C03', 'Index, mask, chunk and filter helpers select the exact items',
  'For any list of counts the derived offsets are the integer running totals '
  'starting at zero, and chunked iteration over a sequence yields exactly '
  'the consecutive pieces those counts describe. '
  'A mask, an index list or a value-range filter selects exactly the '
  'elements it denotes, in order and for every array it is applied to, and '
  'writing through the helpers changes only the addressed elements. '
  'None of the helpers modifies its inputs.',
  ['inputs'],
  'all count lists, masks and index lists up to length 4 (6), all supported '
  'container forms and integer types, ranges with and without each bound',
  'No test covers these helpers; boundaries (empty, zero counts, unsigned '
  'types, equality with a range end) are where they can break.',
  ['core/dataproc/data_structs.py', 'core/dataproc/mask.py',
   'core/dataproc/iter.py', 'core/dataproc/filter.py', 'core/abc.py'],
  [('offsets and index/mask application', 'core/dataproc/data_structs.py'),
   ('masks', 'core/dataproc/mask.py'), ('chunks', 'core/dataproc/iter.py'),
   ('range filter', 'core/dataproc/filter.py')],
  TREE, TRUST)

P('C04', 'Bounded arithmetic never leaves its bounds',
  'Bounding a scalar or an array returns the same value wherever it already '
  'lies between the bounds and the nearer bound elsewhere, keeps the shape, '
  'is idempotent and works in place only when no copy was asked for. '
  'The safe logarithms and division are the logarithm and quotient after '
  'bounding the argument or divisor from below, never negative-infinite or '
  'undefined for finite input, for any number of arguments. '
  'Norms and normalised vectors agree with the Euclidean definition along '
  'the given axis.',
  ['inputs'],
  'all scalars, and arrays of up to 3 (4) entries, over an alphabet with '
  'negative, zero, tiny, infinite and undefined values, every bound '
  'combination, integer and floating types, memory layouts',
  'The tests bound three literal inputs.',
  ['core/dataproc/num.py'],
  [('bound, safe_lg, safe_ln, safe_div, norm', 'core/dataproc/num.py')],
  TREE, TRUST)

P('C05', 'Every value is located in the bin whose edges enclose it',
  'For any ascending edges, a value is located in the half-open interval '
  'that contains it; values below the first edge and at or above the last '
  'one get distinct underflow and overflow answers, infinities included. '
  'Search bins, equally spaced bins, one-dimensional and multi-dimensional '
  'grids give the same answer for the same edges, for scalars and arrays '
  'alike, and the reported centres, widths and number of bins match the '
  'edges.',
  ['inputs'],
  'all edge lists of 2-4 (5) values from an alphabet with ties, and '
  'equally spaced bins with 1-12 (40) bins; queries on every edge, both '
  'floating-point neighbours, midpoints, far outside, infinities',
  'No test locates a value; the failures are at edges and extremes.',
  ['stats/binning.py', 'core/dataproc/grid.py', 'numerical/interpolate.py'],
  [('locate', 'stats/binning.py'), ('Grid1d, GridMd locate',
                                    'core/dataproc/grid.py')],
  TREE, TRUST + ' Non-representable equal-spaced edges compared to 1e-12 of '
  'the span.')

P('C06', 'Grids enumerate and evaluate every node exactly once, in order',
  'A multi-dimensional grid built from per-axis locations reports the '
  'matching shape, axes and node coordinates in the chosen index order. '
  'Applying a function to a grid evaluates it once on every node and returns '
  'the values arranged with the shape of the grid, however the arguments are '
  'passed, for scalar, vector and tuple-valued functions. '
  'Grids built from a data range span, along each axis, the requested '
  'percentiles of the data with the requested number of nodes.',
  ['inputs'],
  'all grids of 1-3 (4) dimensions with 1-4 nodes per axis incl. repeated '
  'nodes, every index order, argument mode and result kind',
  'No test; transposed axes are invisible on square grids.',
  ['core/dataproc/grid.py'],
  [('GridMd node layout and application', 'core/dataproc/grid.py')],
  TREE, TRUST)

P('C07', 'Memoised values and named parameters follow their history',
  'A cached value is computed exactly once per key (and sub-key), is returned '
  'unchanged until it is dropped, survives a failed computation of another '
  'key, and is never shared between objects. '
  'A parameter list finds, under every index and name, exactly the parameters '
  'and values that its construction and the history of replacements and value '
  'settings left in it, in order; stale names are not found.',
  ['histories'],
  'all cache histories of depth 5 (7) over two keys, and parameter-list '
  'histories of depth 4 (5)',
  'No test exercises caching or parameter replacement; stale entries need '
  'a history.',
  ['core/abc.py', 'astro/cosmology/param.py'],
  [('cache lookup', 'core/abc.py'),
   ('name/index maps', 'astro/cosmology/param.py')],
  BFS, TRUST)

P('C10', 'HDF5 tree after any history equals the tree the history describes',
  'After any history of creating groups, datasets, empty datasets, soft and '
  'external links and attributes, dumping dictionaries, overwriting, '
  'deleting and reading, an HDF5 file holds exactly the tree that the '
  'history describes. '
  'Exclusive creation over an existing name and unknown flags are refused '
  'with a ValueError and leave the existing object as it was; open-or-create '
  'reuses the existing object and overwrites only the named data in place; '
  'an object of the wrong kind is never replaced. '
  'Listings, lengths, membership, lookups and bulk loads agree with the '
  'tree.',
  ['histories', 'inputs'],
  'all histories of depth 2 (3) over a wide menu of more than 100 '
  'operations and of depth 3 (4) over the core menu, from three files',
  'Tests run a few single operations each on a fresh file; flags interact '
  'with what earlier operations left behind.',
  ['io/h5/named_objs.py', 'io/h5/utils.py'],
  [('creation flags', 'io/h5/named_objs.py'),
   ('key listing', 'io/h5/utils.py')],
  BFS, TRUST + ' Trusts h5py; in-memory files.')

P('C11', 'HDF5 dump and load give the data back',
  'Whatever supported nested data is dumped, to whatever destination of '
  'whatever file, loading it back gives the same tree with the same values, '
  'shapes and numeric types (text as bytes), and nothing else in the file '
  'changes. '
  'Unsupported keys or values anywhere in the data are refused with a '
  'TypeError before anything of that dictionary is written. '
  'Objects that dump themselves and text tables converted to HDF5 follow '
  'the same rule and the same overwrite flags.',
  ['inputs', 'configurations'],
  'all data trees of depth 2 with up to 2 (3) keys per level over 23 leaf '
  'kinds; 6 destinations x 6 file flags x group and dump flags x 7 previous '
  'file contents; every position of an unsupported item',
  'Tests dump one example each with default flags.',
  ['io/h5/named_objs.py', 'io/h5/abc.py', 'io/h5/shortcuts.py',
   'io/h5/utils.py'],
  [('Group.dump/load, File.dump_to/load_from', 'io/h5/named_objs.py'),
   ('self-dumping objects', 'io/h5/abc.py'),
   ('text conversion', 'io/h5/shortcuts.py')],
  TREE, TRUST + ' Trusts h5py.')


P('C08', 'Array wrappers act like the array they wrap',
  'An array wrapper built from any array, list or other wrapper holds the '
  'same values with the requested type and shares memory with its source '
  'exactly when no copy was asked for and none was needed. Its shape, size, '
  'element type, length, flattened, copied, sorted and arg-sorted forms are '
  'those of the wrapped array, along the same axes. '
  'Wrapped shapes, element types and index lists keep their values and refuse '
  'malformed input.',
  ['inputs'],
  'all arrays over 9 shapes of up to 3 dimensions with up to 4 (6) free '
  'entries, 4 element types and 4 ways to build them, through every '
  'operation',
  'No test exercises the wrappers; ties, empty arrays and axis order are '
  'where they can differ.',
  ['core/arrays/array.py', 'core/arrays/dtype.py'],
  [('Array, Shape, index arrays', 'core/arrays/array.py'),
   ('DType', 'core/arrays/dtype.py')],
  TREE, TRUST)

P('C12', 'HDF5 files honour their open flags and persist what was closed',
  'Opening a file for reading, appending, exclusive creation or truncation '
  'succeeds exactly in the states of the file that the flag documents, and a '
  'refused open changes nothing on disk. '
  'Whatever happened in a session before it ended, by leaving the block '
  'normally, by an exception, or by closing, is what the next session '
  'finds, every handle is closed afterwards, and a session opened for '
  'reading never changes the file.',
  ['histories', 'crash_points'],
  'all histories of 2 (3) sessions over 6 open flags, 9 actions and 4 exit '
  'paths, from a missing, an empty, a filled and a foreign file; every '
  'invalid flag; every form of path',
  'Tests open each file once with a valid flag and leave the block '
  'normally.',
  ['io/h5/named_objs.py'],
  [('File open flags, context manager', 'io/h5/named_objs.py')],
  BFS, TRUST + ' Trusts HDF5/h5py.')

P('C13', 'HDF5 attributes after any history equal what the history describes',
  'After any history of creating, creating empty, overwriting, dumping, '
  'deleting and loading attributes on a file, a group or a dataset, exactly '
  'the attributes that the history describes are present, with the values '
  'and types last written. '
  'Exclusive creation over an existing attribute and unknown flags are '
  'refused and leave it unchanged, and attributes of other objects are '
  'never affected.',
  ['histories'],
  'all attribute histories of depth 3 (4) over two names, nine values and '
  'five flags on three kinds of object',
  'Tests write one attribute once; flags and earlier values interact.',
  ['io/h5/named_objs.py'],
  [('attribute manager', 'io/h5/named_objs.py')],
  BFS, TRUST + ' Trusts h5py; in-memory files.')

P('C14', 'HDF5 listings show every member, and only members, in order',
  'The printed listing of a file, group or dataset shows each member once, '
  'under its parent, in order, with its type and shape and, when asked, its '
  'attributes; it prints to the given stream or returns the text. '
  'Listing never changes the file.',
  ['inputs', 'configurations'],
  'all trees of up to 2 (3) members over 8 member kinds nested up to two '
  'levels, times every listing option',
  'Tests print a listing and do not look at it.',
  ['io/h5/named_objs.py', 'io/h5/utils.py'],
  [('ls', 'io/h5/named_objs.py')],
  TREE, TRUST + ' Trusts h5py.')

P('C15', 'Fortran record files are read record by record, damage is noticed',
  'Any sequence of reads, skips and seeks over a file of length-delimited '
  'records returns, at each step, exactly the bytes at the current position '
  'interpreted with the requested type and count (a scalar if no count is '
  'given), and leaves the position right behind them, for single items as for '
  'whole records with their markers. '
  'A record whose markers before and behind the requested data disagree, or '
  'that is cut off, is reported and never returned as data.',
  ['histories', 'crash_points'],
  'all read histories of depth 4 (5) over 34 operations on three files; all '
  'truncation points and all single-marker corruptions of all files of up '
  'to 3 (4) records',
  'No test reads a Fortran file.',
  ['io/binary/fortran.py'],
  [('record markers and position', 'io/binary/fortran.py')],
  BFS + '; exhaustive truncation and corruption of the file', TRUST)

P('C16', 'Nested tables survive the trip through a spreadsheet',
  'Dumping a nested dictionary of columns writes one sheet per inner-most '
  'table, named by the path of the table, holding exactly its columns in '
  'order with the requested index, prefix and number format. '
  'Loading the sheets gives the nested dictionary back, as dictionaries of '
  'columns or as tables.',
  ['inputs', 'configurations'],
  'all nested dictionaries of depth up to 3 with 1-2 (3) keys per level, '
  'times the prefix, index, number-format, order and table options',
  'No test covers it, and no spreadsheet engine is installed.',
  ['io/excel/__init__.py'],
  [('sheet naming, column layout', 'io/excel/__init__.py')],
  TREE, TRUST + ' A recording stand-in replaces the file format.')

P('C17', 'Nested configuration nodes override their ancestors',
  'A value looked up in a configuration file is the one given by the most '
  'deeply nested of the selected nodes that defines it, and by the enclosing '
  'nodes otherwise; keys that no selected node defines, and missing nodes, '
  'are reported. '
  'Reading never changes the file or earlier results.',
  ['inputs', 'configurations'],
  'all three-level documents with each of 2 (3) keys present or absent per '
  'level, up to one start node and two nested nodes, every requested key '
  'list, and rewrites of the file between two reads',
  'No test covers it; precedence needs several levels that disagree.',
  ['io/yaml.py'],
  [('node resolution', 'io/yaml.py')],
  TREE, TRUST + ' Trusts PyYAML.')

P('C20', 'Reductions use exactly the selected, weighted entries',
  'Sum, mean, standard deviation, quantile, count and error-bar reductions '
  'return the defining formula applied to the entries that the mask selects '
  'with their weights, for vectors and row-wise matrices, whatever values '
  'the unselected entries hold, undefined and infinite ones included. '
  'An empty selection gives the documented fill value, and reductions '
  'requested by name, by class or in combination give the same numbers. '
  'Summaries and stacks of many data sets follow the same formulas.',
  ['inputs'],
  'all vectors of 0-3 (4) values from a 4-value alphabet with ties, all '
  'masks, all weight assignments, and matrices of 1-3 rows, through every '
  'reduction',
  'Tests compare one or two literal samples; empty selections and poisoned '
  'unselected entries never occur in them.',
  ['stats/reduction.py', 'stats/summary.py', 'stats/stacking.py'],
  [('reductions', 'stats/reduction.py'), ('summary', 'stats/summary.py'),
   ('stacking', 'stats/stacking.py')],
  TREE, TRUST)

P('C21', 'Histograms count every item once in the bin that contains it',
  'Whatever the order in which data are accumulated, a binned accumulator '
  'holds in each bin exactly the number or total weight of the items that '
  'fall into it; items outside the range are counted nowhere. '
  'Bin specifications by number, edges, quantile range and sub-division '
  'describe the edges they document, and overlapping bins hold the sum of the '
  'sub-bins they span.',
  ['histories', 'inputs'],
  'all fill histories of depth 3 (4) over five accumulators, and all bin '
  'specifications of the alphabets with up to 4 bins and 1-4 sub-bins',
  'One test fills one histogram; edges, overlaps and repeated fills are not '
  'reached.',
  ['stats/binning.py'],
  [('BinnedData, Bin, Hist1D', 'stats/binning.py')],
  BFS + '; ' + TREE, TRUST)

P('C22', 'Neighbour regressions agree with brute force over all pairs',
  'For every query point a nearest-neighbour regression reduces exactly the '
  'requested number of nearest training points (those strictly closer than '
  'the maximal distance, if one is given), and a local-kernel regression '
  'exactly the training points within the radius (by default a tenth of the '
  'standard deviation of the query points, averaged over the features), with '
  'weights given by kernel and sample weight. '
  'The results come in query order for any number of features, and the masked '
  'fraction estimator follows the same rule.',
  ['inputs'],
  'all training subsets of 1-5 (7) points of 1-3 features, five queries, '
  'every neighbour count, four radii, six kernels, weights present or not',
  'Tests check shapes or plots only.',
  ['stats/regression.py'],
  [('neighbour selection and weighting', 'stats/regression.py')],
  TREE, TRUST + ' Ties for the last neighbour between unequal points are '
  'not decided.')

P('C23', 'Density estimates equal weight per volume of the defining region',
  'A histogram density is the fraction of the weight inside the grid that '
  'falls in the cell of the query, per cell volume, and the fill value '
  'outside the grid. '
  'A local density is the weight fraction of the samples within the radius '
  'per volume of that ball, and a neighbour density that of the nearest '
  'samples per volume of the ball reaching the last of them (or the maximal '
  'distance), a kernel only redistributing the weight among those samples. '
  'This holds for any number of dimensions, weighted or not.',
  ['inputs'],
  'all samples of 1-5 (7) points of 1-3 dimensions, 5-9 queries including '
  'cell edges, every neighbour count, four radii, six kernels',
  'No test covers it.',
  ['stats/density_estimation.py'],
  [('density estimators', 'stats/density_estimation.py')],
  TREE, TRUST)

P('C24', 'Resampling and noise are right for every outcome of the random draws',
  'Whatever indices the random source returns, each bootstrap resample '
  'hands the function the rows selected by those indices, the same rows of '
  'every data set, as many as the data set has, and results are collected '
  'in resample order. '
  'Noise is the drawn standard normal scaled and shifted as requested and '
  'added to a copy, never to the input.',
  ['schedules', 'inputs'],
  'every index vector the source could return for 1-2 data sets of 1-3 rows '
  'and 1-2 (3) resamples; every draw of up to 2x2 numbers from three values',
  'A test sees one random outcome and cannot tell a wrong row.',
  ['stats/sampling.py', 'stats/random.py'],
  [('bootstrap', 'stats/sampling.py'), ('noise', 'stats/random.py')],
  'stateless exhaustive exploration in which every answer of the random '
  'source is a branch', TRUST)

P('C25', 'Random sources are reproducible and shared exactly when asked',
  'Two sources made from the same seed give the same draws for any sequence '
  'of operations, and every draw equals that of the underlying NumPy '
  'generator in the same state; a source made from an existing generator '
  'or source shares its state, so interleaved use continues one stream. '
  'Random directions lie on the unit sphere and follow the uniform draws '
  'they are made from.',
  ['histories', 'schedules'],
  'all draw histories of depth 3 (4) over twenty operations on two sources '
  'and their aliases, made in six ways; all directions over a grid of '
  'uniform outcomes',
  'No test draws twice; lost sharing only shows when uses interleave.',
  ['stats/random.py'],
  [('Rng', 'stats/random.py')],
  BFS, TRUST + " Trusts NumPy's generators.")

P('C26', 'Kernels, standardisation and normal scores follow their formulas',
  'A kernel gives the same weight for a distance however it was made '
  '(by name, parameters, number or object), falls to zero beyond its '
  'support, and its volume is the integral it documents. '
  'Standardising subtracts the mean and divides by the spread of each '
  'training column (bounded from below, so constant columns are finite), '
  'and undoing the step gives the data back. '
  'Mapping values to normal scores interpolates the cumulative distribution '
  'of the sample and is inverted by the reverse mapping; equal sample '
  'values are refused.',
  ['inputs'],
  'seven distances, four widths, all ways to make a kernel; all training '
  'matrices of 1-3 x 1-2 entries; all samples of 2-5 (6) values',
  'No test covers it.',
  ['stats/kernel.py', 'stats/preprocessing.py', 'stats/prob_dist.py'],
  [('kernels', 'stats/kernel.py'),
   ('Standardize', 'stats/preprocessing.py'),
   ('ProbTransToNorm', 'stats/prob_dist.py')],
  TREE, TRUST)


P('C27', 'Binned number densities are right for every bootstrap resample',
  'A binned volume density counts (or sums the weights of) the values of '
  'each resample, optionally perturbed by noise, in overlapping bins made of '
  'sub-bins, and divides by the volume and the bin width; its logarithm is '
  'bounded from below by the pad. '
  'The returned means and spreads are those of the returned samples, the '
  'bin centres, widths and edges those of the requested binning, only values '
  'within the range take part, and the inputs are not modified.',
  ['inputs', 'schedules'],
  'all data sets of 1-3 (4) values x 7 binnings x sub-bins, with every '
  'index vector the random source may return',
  'No test covers it, and one random resample cannot show a wrong row.',
  ['astro/stats/lss.py', 'stats/summary.py', 'stats/binning.py'],
  [('resampled histogram', 'astro/stats/lss.py')],
  'stateless exhaustive exploration in which every answer of the random '
  'source is a branch', TRUST)

P('C30', 'Sorted search and interpolation are exact at and between nodes',
  'For sorted nodes, locating a value finds the interval or the nearest node '
  'it belongs to for every query, including values on a node, next to it in '
  'floating point, and far outside. '
  'Linear interpolation reproduces node values, is linear between '
  'neighbouring nodes, and outside the nodes behaves as its documented '
  'extrapolation policy; tabulated interpolation in one or two dimensions '
  'agrees with that. '
  'Malformed tables are refused.',
  ['inputs'],
  'all node lists of 1-5 (7) values of the alphabet, each queried at every '
  'node, at both floating-point neighbours, between and outside',
  'Only two smooth functions are sampled by the tests.',
  ['numerical/interpolate.py'],
  [('searches and interpolators', 'numerical/interpolate.py')],
  TREE, TRUST)

P('C31', 'Point groups really are the symmetry groups they are named after',
  'The cubic group has exactly the 48 signed axis permutations of space and '
  'the square group the 8 of the plane, each once, and each generating '
  'family exactly its documented elements. '
  'The product of elements is an element of the group and acts as applying '
  'them one after the other, each element has its inverse in the group, and '
  'applying a group to vectors gives all images of each of them.',
  ['inputs', 'histories'],
  'all products of up to 3 (5) elements of both groups and all combinations '
  'of up to 3 generating families',
  'No test covers it; a single wrong sign gives a plausible matrix.',
  ['group_theory/point_group.py'],
  [('point groups', 'group_theory/point_group.py')],
  BFS, TRUST)

P('C40', 'Grids, mass assignment and field interpolation conserve and agree',
  'Cloud-in-cell assignment of particles adds each particle\'s weight to the '
  'eight surrounding nodes of a periodic mesh in proportion to closeness, so '
  'the total mass is the sum of the weights wherever the particles are '
  '(inside, outside or on an edge of the box) and the order of the '
  'particles does not matter. '
  'Positions and mesh indices convert consistently, interpolating a field '
  'uses the same weights, and any history of assigning, storing to and '
  'loading from files keeps each field as documented. ',
  ['inputs', 'histories'],
  'a point at every combination of 7 (10) positions per axis on meshes of '
  '1-4 cells, and all store/load/add histories of depth 3 (4)',
  'Tests use one random sample; wrapping and cell edges need exact points.',
  ['field/cubic_box/mesh.py', 'field/cubic_box/mass_assignment.py',
   'field/cubic_box/field.py', 'field/cubic_box/cosmic_web.py'],
  [('mass assignment', 'field/cubic_box/mass_assignment.py'),
   ('meshes', 'field/cubic_box/mesh.py'),
   ('interpolation', 'field/cubic_box/cosmic_web.py')],
  BFS + '; ' + TREE, TRUST)

P('C41', 'Smoothing and tidal field act rightly on every Fourier mode',
  'Transforming a field forward and backward gives it back, smoothing '
  'multiplies each Fourier mode by the window of the smoothing length (so '
  'the mean is kept) and is linear. '
  'The tidal field of a density is that of its normalised contrast: for '
  'every mode the potential solves the Poisson equation, the tensor is its '
  'matrix of second derivatives, symmetric with a trace equal to the '
  'smoothed contrast, and the eigenvalues are ascending. '
  'Every mesh size is supported, even or odd.',
  ['inputs'],
  'every Fourier mode and phase (a basis of all fields) of meshes of 2-5 '
  '(7) cells per side, two smoothing lengths and windows, pairs of modes',
  'Tests check one field; an error in one mode or one mesh parity is '
  'invisible.',
  ['field/cubic_box/fft.py', 'field/cubic_box/smoothing.py',
   'field/cubic_box/gravity.py'],
  [('smoothing', 'field/cubic_box/smoothing.py'),
   ('tidal field', 'field/cubic_box/gravity.py'),
   ('transform', 'field/cubic_box/fft.py')],
  TREE + ' (complete basis of a linear operator)', TRUST)

P('C42', 'Cosmic-web classification counts eigenvalues above the threshold',
  'A node is a void, sheet, filament or knot when none, one, two or three of '
  'the eigenvalues there exceed the threshold strictly; the four masks '
  'partition the mesh, their fractions add up to one, and looking up grid '
  'points by type lists exactly the positions of the nodes of that type. '
  'A position takes type and eigenvalues of the nearest node, periodically, '
  'and reading a stored tidal field gives the same classification. ',
  ['inputs'],
  'every ordered eigenvalue triple of the alphabet (equality with the '
  'threshold included) on every node of meshes of 1-3 nodes per side, four '
  'offsets around each node',
  'No test covers it.',
  ['field/cubic_box/cosmic_web.py', 'field/cubic_box/mesh.py'],
  [('classifier', 'field/cubic_box/cosmic_web.py')],
  TREE, TRUST)

P('C43', 'Periodic neighbour searches find every neighbour exactly once',
  'For any points in a periodic box, a search by radius delivers each point '
  'within the radius of the query under the nearest-image distance exactly '
  'once. '
  'The tree search delivers nothing else; the mesh search delivers no point '
  'twice even when the search region wraps around the whole box.',
  ['inputs'],
  'all sets of 1-3 (4) points out of 10 positions in 1-3 dimensions, 10 '
  'queries, 6 radii from tiny to larger than half of the box, meshes of 1-5 '
  'cells',
  'Tests use random points with a small radius, where wrapping is rare.',
  ['field/neighbor/kd_mesh.py', 'field/neighbor/kd_tree.py'],
  [('mesh search', 'field/neighbor/kd_mesh.py'),
   ('tree search', 'field/neighbor/kd_tree.py')],
  TREE, TRUST)

P('C45', 'Periodic wrapping and frame changes keep positions and vectors',
  'Wrapping positions into a periodic box gives, for each coordinate, the '
  'equivalent position inside the box; wrapping separations gives the '
  'nearest image; a mask or in-place request limits or directs the change '
  'exactly as asked and otherwise the input is untouched. '
  'Polar angles and unit vectors convert into each other, and rotating '
  'between a radial-tangential frame and Cartesian axes preserves lengths '
  'and is undone by the reverse.',
  ['inputs'],
  'arrays of 1-3 (4) of 11 positions incl. the floating-point neighbours of '
  'the box edges, all masks and modes; 13 x 13 angles; 3 x 27 vectors',
  'No test covers it; the edges of the box are single floating-point values.',
  ['core/dataproc/frame.py'],
  [('PeriodicBox, Polar, frames', 'core/dataproc/frame.py')],
  TREE, TRUST)

P('C54', 'Sexagesimal angles convert to degrees with the right sign',
  'An angle in degrees-minutes-seconds or hours-minutes-seconds, given as '
  'text or as numbers, converts to the decimal degrees it denotes; the sign '
  'in front applies to the whole angle, also when the leading field is '
  'zero.',
  ['inputs'],
  'all combinations of sign, degrees, minutes (60 in the thorough tier) and '
  'seconds of the alphabets in seven notations',
  'No test covers it; angles between -1 and 0 degrees are easily missed.',
  ['astro/coords/cvt.py'],
  [('conversions', 'astro/coords/cvt.py')],
  TREE, TRUST)

P('C50', 'Unit systems convert consistently with SI and the Hubble parameter',
  'For any base units of length, time and mass, every derived unit and every '
  'physical constant offered by a unit system has the value that follows '
  'from SI by dimensional analysis, as a number and as a quantity with '
  'units, and the compiled (numba) form agrees with the ordinary one. '
  'A unit system made for cosmology has Mpc/h, Gyr/h and 1e10 Msun/h as its '
  'base units for the Hubble parameter h it was made for.',
  ['inputs'],
  'all triples of base units and Hubble parameters of the alphabets, every '
  'attribute of each',
  'Tests look at a few attributes of one system; a wrong power of one base '
  'unit is invisible when that unit is one.',
  ['astro/quantity/unit_system.py'],
  [('UnitSystem and constants', 'astro/quantity/unit_system.py')],
  TREE, TRUST)

P('C51', 'Cosmologies describe one consistent flat expanding universe',
  'However a cosmology is made (parameters, file, predefined name), its '
  'densities, Hubble rate, ages, look-back times and distances at any '
  'redshift follow the Friedmann equation of its parameters, scalars and '
  'arrays alike, and the inverse look-ups of redshift undo them. '
  'A predefined cosmology is found under its name with the parameters of its '
  'data file and is loaded once; a file that is missing, of another kind or '
  'lacks a needed entry is refused. '
  'After any history of requests the registry and the parameter lists still '
  'hold what was put into them.',
  ['inputs', 'histories'],
  'every cosmology, way of construction, redshift and form of the alphabets; '
  'all registry and parameter-list histories up to depth 3 (4)',
  'Tests check single numbers of the default cosmology.',
  ['astro/cosmology/model.py', 'astro/cosmology/param.py',
   'astro/cosmology/flat_lambda_cdm_nr.py'],
  [('LambdaCDM', 'astro/cosmology/model.py'),
   ('numba model', 'astro/cosmology/flat_lambda_cdm_nr.py'),
   ('parameters', 'astro/cosmology/param.py')],
  BFS + '; ' + TREE, TRUST)

P('C52', 'Halo relations follow their definitions',
  'Virial radius (comoving) and velocity at any mass, '
  'redshift and overdensity satisfy the spherical-overdensity definition '
  'against the critical or mean density, for scalars and for arrays that '
  'broadcast together. '
  'Stored tables are interpolated between the surrounding nodes and requests '
  'outside them are refused, NFW concentration and the ratio of maximum to '
  'virial velocity invert '
  'each other, and asking for a mass function passes the requested range, '
  'redshift, definition and options on, without changing the options of the '
  'caller or leaking options from one request into the next.',
  ['inputs', 'histories'],
  'every mass, redshift and overdensity of the alphabets in every form, '
  'every node and interval of the tables, all request histories up to depth '
  '2 (3)',
  'No test covers halo theory apart from an example.',
  ['astro/cosmology/halo_theory.py'],
  [('HaloTheory', 'astro/cosmology/halo_theory.py')],
  BFS + '; ' + TREE, TRUST + ' The external mass-function library is not '
  'installed and is replaced by a recorder with its interface.')

P('C53', 'Matter power spectra, variances and windows follow their formulae',
  'For any cosmology the power spectrum at any wave number and redshift is '
  'the primordial power law times the squared transfer function (with or '
  'without the baryon effect) times the squared growth factor, normalised to '
  'the variance the cosmology asks for. '
  'The variance at any radius is the integral of the spectrum through the '
  'window function, tabulated spectra interpolate the same values, and '
  'parameters outside the domain of a formula are refused.',
  ['inputs'],
  'every cosmology, variant, wave number, radius and redshift of the '
  'alphabets against an independent implementation of the published formulae',
  'Tests compare one spectrum at the resolution of a figure.',
  ['astro/cosmology/power_spectrum.py'],
  [('spectra and variances', 'astro/cosmology/power_spectrum.py')],
  TREE, TRUST)

P('C60', 'Artists are drawn with the formats set on their axes',
  'After any history of format settings, on single axes or on arrays of '
  'axes, every line, marker, error bar, filled area, histogram and text is '
  'drawn with exactly the colours, opacities, widths, styles and sizes last '
  'set for its kind on those axes; other axes are unaffected, a common '
  'colour applies to all plot kinds, and unknown settings are refused. '
  'A keyword given to a single call overrides the format for that call only. '
  'An error band covers the values minus and plus the errors, and a legend '
  'is put where its short or long location name says.',
  ['histories', 'inputs'],
  'all format histories up to depth 2 (3) on two axes with all seven kinds '
  'of artists drawn after each; all single and paired overrides; all legend '
  'places',
  'There is no test of the plotting layer.',
  ['plot/axes.py', 'plot/artist_formatter.py', 'plot/color.py'],
  [('drawing', 'plot/axes.py'), ('formats', 'plot/artist_formatter.py')],
  BFS + '; ' + TREE, TRUST + ' The reference draws the same artist through '
  'matplotlib with every detail spelled out.')

P('C61', 'Grids of axes and sub-figures are laid out as asked',
  'For any number of rows and columns, frame, margins, spacings and size '
  'ratios, each axes or sub-figure of a grid lies at the place its row and '
  'column imply, shares its axis with exactly the requested others and is '
  'returned at the matching position of an array (or alone if it is the '
  'only one). '
  'Indexing, slicing, transposing, flattening and iterating an array of '
  'axes follows array rules and keeps the identity of the axes, figures get '
  'the requested size, resolution and layout, and a colour bar belongs to '
  'the requested mapping, axes and side.',
  ['inputs', 'configurations'],
  'all grids, frames, spacings, ratios, sharing modes, index expressions and '
  'colour-bar options of the alphabets',
  'There is no test of the plotting layer.',
  ['plot/figure.py', 'plot/shortcut.py', 'plot/artist_formatter.py',
   'plot/axes.py'],
  [('figures', 'plot/figure.py'), ('shortcuts', 'plot/shortcut.py'),
   ('grid formats', 'plot/artist_formatter.py'),
   ('AxesArray', 'plot/axes.py')],
  TREE, TRUST)

P('C62', 'Two-dimensional densities count every point where it is',
  'For any points, weights and bins, the histogram density at a position is '
  'the weight counted in the bin that holds it (bin edges belong to the '
  'upper bin, the last edge to the last bin) over area and total, and zero '
  'or the nearest bin outside; the neighbour density is the weight of the k '
  'nearest points over the area of the circle that holds them; values on a '
  'mesh are those at its nodes. '
  'The level of a fraction p is the highest density whose super-level set '
  'holds at least p of the mass; meshes and contours are drawn at their '
  'true positions and points inside a hidden region are the only ones '
  'left out.',
  ['inputs'],
  'all sets of 1-3 (4) points of ten positions, nine binnings, 64 queries; '
  'six point sets x bins x ranges x estimators x percentiles for drawing',
  'There is no test of the plotting layer; the extreme data points lie '
  'exactly on bin edges.',
  ['plot/two_dim.py', 'plot/axes.py'],
  [('estimators, level sets', 'plot/two_dim.py')],
  TREE, TRUST)

P('C63', 'Drawing configurations are independent; colours keep their values',
  'After any history of updates, style sheets and activations of several '
  'configurations, each configuration holds the defaults with exactly the '
  'groups it was given replaced as a whole, the library-wide settings are '
  'those of the activations in order, and defaults and style sheets are '
  'unchanged. '
  'A colour made from any notation, with or without opacity, has the '
  'components it denotes, copies are independent, and colour sequences list '
  'the colours of their map at the requested levels.',
  ['histories', 'inputs'],
  'all configuration histories up to depth 3 (4); every colour notation and '
  'sequence of the alphabets',
  'There is no test of the plotting layer.',
  ['plot/runtime_config.py', 'plot/color.py', 'plot/__init__.py'],
  [('RuntimeConfig', 'plot/runtime_config.py'),
   ('Color, ColorSeq', 'plot/color.py')],
  BFS + '; ' + TREE, TRUST)

P('C64', 'Frame settings of axes hold until they are changed',
  'After any history of limits, labels, scales, ticks, tick parameters, '
  'grids and outer-label requests on axes that may share an axis, addressed '
  'one by one or as an array, each axes shows the limits, labels and scale '
  'last asked for, its explicit ticks and tick labels survive unrelated '
  'settings and a change of the scale, and inner labels stay hidden once '
  'that was asked for. '
  'A setting never changes axes it was not asked for or undoes another one.',
  ['histories'],
  'all histories up to depth 2 (3) of 36 settings, and up to depth 3 (4) of '
  'ten, on two axes with and without a shared x axis',
  'There is no test of the plotting layer; interference needs several '
  'settings in a particular order.',
  ['plot/axes.py', 'plot/artist_formatter.py'],
  [('frame formats', 'plot/artist_formatter.py'), ('axes', 'plot/axes.py')],
  BFS, TRUST)

P('C65', 'Secondary axes show the converted value at the same place',
  'Whatever conversion, place, limits, ticks and label are asked for, a '
  'value of the first axis and its converted value on the secondary axis '
  'are drawn at the same place, the secondary axis lies at the requested '
  'side with the requested ticks and label, and the ticks of the first axis '
  'are hidden on that side only if asked for. '
  'A conversion given by a table is piecewise linear through its nodes. '
  'An area between two curves has the first curve and the reversed second '
  'one as its outline.',
  ['inputs', 'configurations'],
  'six kinds of secondary axes x five places x four limits x options; bands '
  'between 5 x 5 curves',
  'There is no test of the plotting layer.',
  ['astro/plot/shortcuts.py', 'plot/axes.py'],
  [('secondary axes', 'astro/plot/shortcuts.py')],
  TREE, TRUST)

P('C18', 'Name lists, text forms and log lines say what the object holds',
  'A list of names is an immutable sequence of exactly the names it was '
  'given, in order, and selecting by pattern keeps exactly the names whose '
  'beginning matches. '
  'Every object with a plain representation gives its declared attributes, in '
  'the declared order and nested objects expanded, with its type when asked, '
  'and the text, YAML and JSON forms carry the same content. Attribute '
  'completion of stores and tables offers the stored names besides the '
  'methods. '
  'Log lines appear exactly while verbosity is on, with the requested name, '
  'time, separator and end.',
  ['inputs', 'histories', 'configurations'],
  'all lists of up to 3 (5) names over 4 names with 8 patterns, all objects '
  'with up to 2 declared attributes and one nested level, 16 library '
  'objects, log histories of depth 2 (3) over 38 calls',
  'No test looks at text forms, logs or name lists.',
  ['core/abc.py', 'io/h5/utils.py', 'io/h5/named_objs.py',
   'core/containers/data_table.py'],
  [('plain forms and logs', 'core/abc.py'), ('name list', 'io/h5/utils.py')],
  TREE + '; ' + BFS, TRUST)

P('C66', 'Format records keep what was set; the current figure is the one drawn',
  'After any history of settings of a format record, by item, by update or '
  'by its colour methods, every setting holds the value last given (or its '
  'documented default), colours combine the colour and opacity last set, '
  'unknown settings are refused with a KeyError, and other records are '
  'unaffected. '
  'Saving, showing and closing act on the figure last made and not closed, '
  'at its size and the requested resolution.',
  ['histories'],
  'all histories of depth 3 (4) of up to 27 settings on ten records of five '
  'kinds; figure histories of depth 3 (4)',
  'There is no test of the plotting layer.',
  ['plot/artist_formatter.py', 'plot/shortcut.py'],
  [('format records', 'plot/artist_formatter.py'),
   ('figure shortcuts', 'plot/shortcut.py')],
  BFS, TRUST)
