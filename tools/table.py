IN = ['inputs']
A_ = 'term equality by normal form, otherwise identity testing of the two closed forms at random and branch-directed points'
NB = 'Sound over all real/integer inputs named symbolic for the fixed grid-size contexts listed in the evidence; sizes are analysis contexts, not symbolic. Equality of closed forms not settled by normalisation is decided by identity testing (probabilistic, one-sided: an alarm always carries a separating point).'
SIM = ['src/gaussfft.cpp', 'src/gaussfftinterface.cpp', 'src/nrlib/variogram/gaussianfield.cpp', 'src/nrlib/variogram/fftcovgrid.cpp', 'src/nrlib/fft/fftgrid2d.hpp', 'src/nrlib/fft/fftgrid3d.hpp', 'src/nrlib/fft/fft.hpp']
prop('C01', 'Simulated fields have exactly the covariance of the requested variogram',
     'For every variogram family, range, angle, spacing, grid size and padding, in one, two and three dimensions, a simulated field is a zero-mean linear combination of independent standard normal draws. The covariance between any two of its cells is the variogram\'s covariance at their lag, wrapped on the padded grid actually used, with negative spectral values set to zero. Several fields simulated in one call are mutually independent.',
     IN, 'all variograms, spacings, angles, sizes and paddings', 'A test sees single realisations; covariance is a statement about the linear map from draws to cells, for every parameter value.',
     SIM, [('field synthesis', 'src/nrlib/variogram/gaussianfield.cpp'), ('wrapped covariance', 'src/nrlib/variogram/fftcovgrid.cpp'), ('transform and normalisation', 'src/nrlib/fft/fftgrid3d.hpp')],
     VF + 'the extracted linear map L from draws to cells is compared with the specified covariance (L L^T)', NB)
prop('C02', 'The same seed reproduces the same fields, whatever happened before',
     'After setting a seed, every later sequence of simulations is a function of that seed and the arguments alone: repeating the seed and the calls gives identical values, whatever was simulated, seeded, created or queried before. Successive simulations without reseeding use fresh random draws.',
     ['histories'], 'all call histories before and after seeding; all seeds', 'Histories are unbounded; hidden state (cached draws, static buffers) shows only after particular sequences.',
     ['src/nrlib/random/random.cpp', 'src/nrlib/random/randomgenerator.cpp', 'src/nrlib/random/dsfmt.cpp'] + SIM[:3], [('global generator', 'src/nrlib/random/random.cpp'), ('generator object', 'src/nrlib/random/randomgenerator.cpp')],
     VF + 'dependence analysis of results on static storage that holds unknown values before seeding', NB)
prop('C03', 'The seed can be read back and always explains the results',
     'Reading the seed before any was set raises an error. After setting a seed it is read back unchanged, also after any number of simulations; after an unseeded simulation the reported seed, when set again, reproduces that simulation. Reading the seed changes nothing, and seeded results never depend on the clock.',
     ['histories'], 'all orders of seeding, reading the seed and simulating; all seeds', 'Depends on the order of calls in a fresh process and on the clock.',
     ['src/nrlib/random/random.cpp', 'src/gaussfft.cpp', 'src/gaussfftinterface.cpp'], [('start seed', 'src/nrlib/random/random.cpp'), ('lazy initialisation', 'src/gaussfft.cpp')],
     VF + 'closed forms of results compared across call orders; dependence on the clock source', NB)
prop('C04', 'Queries are pure and simulations leave the variogram alone',
     'Correlation and size queries, reading the seed, and creating or destroying variograms never change the values of later simulations. Simulating never changes a variogram, and two variograms created with the same parameters are interchangeable.',
     ['histories'], 'all interleavings of queries with simulations', 'A stray draw or cache in a query shows only when calls are interleaved in a particular way.',
     ['src/gaussfft.cpp', 'src/nrlib/variogram/variogram.cpp', 'src/nrlib/variogram/gaussianfield.cpp'], [('queries', 'src/nrlib/variogram/variogram.cpp')],
     VF + 'closed forms of results compared with and without the interleaved calls', NB)
prop('C05', 'Dimensions, defaults and keywords select the documented simulation',
     'A grid size of one or less (or a missing spacing) in the second or third direction reduces the dimension, and the arguments of dropped directions have no effect. Positional and keyword arguments mean the same, the advanced call with default settings equals the plain call, and automatic padding equals the padding announced by the size query.',
     IN, 'all argument combinations', 'The combinations of optional arguments are too many to sample.',
     ['src/gaussfft.cpp', 'src/gaussfftinterface.cpp', 'src/nrlib/variogram/gaussianfield.cpp'], [('dispatch', 'src/gaussfft.cpp'), ('argument tables', 'src/gaussfftinterface.cpp')],
     VF + 'closed forms of all cells compared between equivalent calls made through the binding table', NB)
prop('C06', 'Results have one value per requested cell, first direction fastest',
     'The result is a flat vector with exactly one value per requested cell and none of the padding. In two and three dimensions the cells are ordered with the first direction varying fastest.',
     IN, 'all sizes and paddings', 'Layout errors hide when sizes are equal or paddings are zero.',
     ['src/gaussfft.cpp', 'src/nrlib/fft/fftgrid2d.hpp', 'src/nrlib/fft/fftgrid3d.hpp', 'src/nrlib/grid/grid.hpp', 'src/nrlib/grid/grid2d.hpp'], [('unpadding', 'src/nrlib/fft/fftgrid3d.hpp')],
     VF + 'constant propagation of container sizes and cell-by-cell comparison', NB)
prop('C07', 'The announced simulation size follows the variogram and the grid',
     'The size query returns one number per simulated dimension: the requested size plus a padding of one more than the larger of the range in cells and the family\'s minimum extent (a family constant times the range in cells) less the requested size. The range is the variogram\'s main range in one dimension; otherwise the larger lateral range is used for the first direction, and for the second unless the azimuth is zero, when it is the perpendicular range; the third uses the depth range.',
     IN, 'all ranges, spacings, sizes and angles', 'Truncation and the choice of range depend on real-valued inputs.',
     ['src/gaussfft.cpp', 'src/nrlib/variogram/gaussianfield.cpp', 'src/nrlib/variogram/variogramtypes.hpp'], [('padding rule', 'src/nrlib/variogram/gaussianfield.cpp'), ('family constants', 'src/nrlib/variogram/variogramtypes.hpp')],
     VF + A_, NB)
prop('C08', 'Transform sizes are the smallest favourable size that fits',
     'For every requested size of at least one, the size chosen for a transform is the smallest product of powers of 2, 3, 5 and 7 that is not smaller than the request. Where an even size is asked for (and the request is at least two), it is the smallest such even product.',
     IN, 'all requested sizes', 'Rounding errors in the search show at isolated sizes only.',
     ['src/nrlib/fft/fft.cpp'], [('size search', 'src/nrlib/fft/fft.cpp')],
     'constant propagation through the size search in LLVM IR for each size context, compared with an integer search', 'Complete for the size contexts in the evidence (all sizes up to 129 and sizes next to powers of two up to 33554434); other sizes are not covered.')
prop('C09', 'Each variogram family is its documented correlation function',
     'For every family (constant, exponential, general exponential, spherical, Gaussian, Matern 3/2, 5/2 and 7/2) the correlation at a lag is the family\'s standard function of the scaled distance, in one, two and three dimensions and for all ranges, angles and powers.',
     IN, 'all lags, ranges, angles and powers', 'The functions are compared as functions, not at a few lags.',
     ['src/nrlib/variogram/variogramtypes.cpp', 'src/nrlib/variogram/variogramtypes.hpp', 'src/nrlib/variogram/variogram.cpp'], [('families', 'src/nrlib/variogram/variogramtypes.hpp')],
     VF + A_, NB)
prop('C10', 'Correlation respects the anisotropy, is even and is one at zero lag',
     'Correlation depends on the lag only through the distance in the rotated principal directions, each scaled by its range: azimuth turns the main direction in the horizontal plane and dip tilts it. It is one at zero lag, even in the lag, between zero and one, and the same whether trailing zero lags are given or left out. Covariance is the variance times the correlation, the variogram is variance minus covariance, and two-point forms use the difference of the points.',
     IN, 'all lags, ranges and angles', 'Needs all orientations at once.',
     ['src/nrlib/variogram/variogram.cpp', 'src/nrlib/variogram/variogram.hpp'], [('lag rotation', 'src/nrlib/variogram/variogram.cpp')],
     VF + A_, NB)
prop('C11', 'A variogram always behaves as its current parameters say',
     'After any sequence of changes to ranges, angles, rotation, range limits and standard deviation, a variogram is indistinguishable from one created with the final parameters. A copy equals its original and neither is affected by later changes to the other. A non-positive range is rejected with an error and leaves the variogram unchanged.',
     ['histories'], 'all sequences of changes, all parameter values', 'Cached quantities go stale only after particular sequences.',
     ['src/nrlib/variogram/variogram.cpp', 'src/nrlib/variogram/variogram.hpp', 'src/nrlib/variogram/variogramtypes.hpp'], [('cached coefficients', 'src/nrlib/variogram/variogram.cpp')],
     VF + A_, NB)
prop('C12', 'The variogram factory honours names, defaults, degrees and keywords',
     'Every supported family name, in any letter case, creates that family. Missing, zero or negative perpendicular and depth ranges mean the main range; angles are given in degrees and default to zero, the power defaults to 1.5 and the variance is one. Keyword and positional arguments mean the same, and every call creates a new independent object.',
     IN, 'all names, letter cases and argument combinations', 'Combinations of optional arguments.',
     ['src/gaussfft.cpp', 'src/gaussfftinterface.cpp'], [('factory', 'src/gaussfft.cpp')],
     VF + A_, NB)
prop('C13', 'Covariance grids hold the wrapped, optionally smoothed covariance',
     'Every cell of a one-, two- or three-dimensional covariance grid holds the variance times the correlation at the cell\'s lag, where indices in the upper half count back from the period. A smoothing value below one multiplies it by that value raised to the squared ratio of the lag to the variogram\'s extent along the axis; a value of one or more means no smoothing. The plain correlation table returns the correlation for every positive and negative index pair.',
     IN, 'all variograms, spacings, smoothing values and sizes', 'One wrong quadrant is averaged away in realisations.',
     ['src/nrlib/variogram/fftcovgrid.cpp', 'src/nrlib/variogram/fftcovgrid.hpp', 'src/nrlib/variogram/covgrid2d.cpp'], [('quadrants', 'src/nrlib/variogram/fftcovgrid.cpp')],
     VF + A_, NB)
prop('C14', 'Transforms, inverse transforms and convolutions are what they say',
     'The two- and three-dimensional padded grids, single or double precision, hold after the forward transform the discrete Fourier sums of their cells, scaled by the root of the number of cells when scaling is requested; the inverse transform then returns the original cells, in every padding. Convolution of two grids is cyclic convolution, and the square-root variant multiplies by the root of the filter\'s spectrum. The one-dimensional transform does the same for any container, after extending it linearly from its last to its first value; inversion drops the extension, and empty input gives empty output.',
     IN, 'all cell values; sizes, paddings and scalings in the listed contexts', 'Scaling errors cancel in round trips with one size; index errors need odd sizes and unequal paddings.',
     ['src/nrlib/fft/fft.hpp', 'src/nrlib/fft/fft.cpp', 'src/nrlib/fft/fftgrid2d.hpp', 'src/nrlib/fft/fftgrid3d.hpp'], [('normalisation', 'src/nrlib/fft/fftgrid2d.hpp'), ('one-dimensional padding', 'src/nrlib/fft/fft.hpp')],
     VF + 'symbolic transforms compared with the defining sums; ' + A_, NB)
prop('C15', 'Every call releases what it allocates and stays within its memory',
     'Everything a call allocates - memory, random generators, transform plans and buffers - is released when the call and its results are gone, on every path including failing ones. Only what is handed to the caller survives: a variogram made by the factory belongs to the caller, and simulating with it neither releases nor keeps it. No call reads or writes outside its buffers, uses released memory or releases anything twice.',
     ['inputs', 'histories'], 'all paths of the documented calls', 'Leaks and overruns do not fail tests.',
     ['src/gaussfft.cpp', 'src/gaussfftinterface.cpp', 'src/nrlib/variogram/gaussianfield.cpp', 'src/nrlib/variogram/fftcovgrid.cpp', 'src/nrlib/fft/fftgrid2d.hpp', 'src/nrlib/fft/fftgrid3d.hpp'], [('generator ownership', 'src/nrlib/variogram/gaussianfield.cpp'), ('plan and buffer ownership', 'src/nrlib/fft/fftgrid3d.hpp')],
     'ownership and bounds analysis: ' + VF + A_, NB)
prop('C16', 'Grid containers store what is written, in the documented order',
     'In the two- to five-dimensional grids cell numbers and index tuples map one-to-one with the first index running fastest, and a cell returns what was last written to it, however it is addressed. Resizing sets sizes and contents as asked (changing only the depth keeps the existing layers), swapping exchanges everything, and copies are independent. Averages, minima, maxima and the log transform treat every cell once and skip missing values.',
     IN, 'all cell values and indices', 'Index maps go wrong only for unequal sizes or outer indices above zero; extremes only for particular signs and positions.',
     ['src/nrlib/grid/grid.hpp', 'src/nrlib/grid/grid2d.hpp', 'src/nrlib/grid/grid2dgeneral.hpp', 'src/nrlib/grid/grid4d.hpp', 'src/nrlib/grid/grid5d.hpp'], [('index maps', 'src/nrlib/grid/grid4d.hpp'), ('statistics', 'src/nrlib/grid/grid.hpp')],
     VF + A_, NB)
prop('C17', 'Random draws are the documented generator and method for every seed',
     'For every 32-bit seed the uniform draws are the double-precision SIMD Mersenne twister with exponent 19937: half-open draws lie in [0,1), open draws in (0,1), integer draws are the low 32 bits, and all kinds share one stream. The global generator and generator objects give the same stream for the same seed and do not affect each other; seeding from the clock reports a seed that reproduces the stream. Normal draws are Marsaglia and Bray\'s method on that stream.',
     IN, 'all seeds, all interleavings of draw kinds', 'Boundary values, stream refills and the rarely taken tail branches of the normal draws are never hit by a test.',
     ['src/nrlib/random/random.cpp', 'src/nrlib/random/random.hpp', 'src/nrlib/random/randomgenerator.cpp', 'src/nrlib/random/randomgenerator.hpp', 'src/nrlib/random/dSFMT.cpp', 'src/nrlib/random/dSFMT.h', 'src/nrlib/random/dSFMT-common.h'], [('normal draws', 'src/nrlib/random/random.cpp'), ('state recursion', 'src/nrlib/random/dSFMT-common.h')],
     VF + 'bit-level; ' + A_, NB)

prop('C18', 'Distributions and special functions agree with their definitions',
     'For every parameter and argument in their domain, the density, cumulative function and quantile of each distribution are the textbook ones (the quantile inverts the cumulative function, tabulated ones within their table), and a draw is the quantile of one uniform draw, or the documented rejection method. Changing parameters or copying behaves like constructing anew. Truncated normal draws lie within the limits, and the error, gamma and incomplete gamma functions and their inverses agree with their definitions and reject arguments outside their domain.',
     IN, 'all parameters and arguments in the stated ranges', 'Table ends, tails, rarely used parameter combinations and re-parametrised objects are not sampled by tests.',
     ['src/nrlib/random/' + f for f in ('normal.hpp', 'normal.cpp', 'lognormal.hpp', 'uniform.hpp', 'triangular.hpp', 'splituniform.hpp', 'beta.hpp', 'beta.cpp', 'betawithendmass.hpp', 'binomial.cpp', 'poisson.cpp', 'generaldiscrete.hpp', 'chisquared.hpp', 'fractal.hpp', 'gamma.cpp', 'functions.cpp')], [('truncated normals', 'src/nrlib/random/normal.cpp'), ('special functions', 'src/nrlib/random/functions.cpp')],
     VF + A_, NB)
prop('C19', 'Binary encodings are exact and input errors never pass as data',
     'Every two- and four-byte integer and four- and eight-byte IEEE number is written in exactly the requested byte order (big-endian by default) and read back bit for bit, singly, in arrays and in memory buffers. IBM floats are written as the value truncated to a hexadecimally normalised 24-bit fraction, zero as zero, and every normalised IBM number in the range of normal IEEE floats is read exactly. A failed write or read raises an error (end of file when single values run out) and never passes as data.',
     IN, 'all values, both byte orders, both number formats', 'Sign bits, exponents and byte orders go wrong for particular bit patterns only.',
     ['src/nrlib/iotools/fileio.hpp'], [('encoders and decoders', 'src/nrlib/iotools/fileio.hpp')],
     VF + 'bit-level; ' + A_, NB)
prop('C20', 'The Python package hands calls on unchanged',
     'Every call of variogram, simulate, advanced.simulate, simulation_size, seed and quote, positional or by keyword, reaches the compiled function of that name with exactly the given arguments, returns its result and lets its errors through, whatever was called before; every call of variogram gives a new object. Each member of VariogramType stands for the family of its name and may be used wherever its name may. Every exported name exists, and importing without NumPy fails with an import error.',
     ['inputs', 'histories'], 'all arguments, all ways of passing them', 'Combinations of keywords, enumeration members and failing calls.',
     ['gaussianfft/__init__.py', 'gaussianfft/advanced/__init__.py', 'src/gaussfftinterface.cpp'], [('wrapper', 'gaussianfft/__init__.py'), ('binding table', 'src/gaussfftinterface.cpp')],
     'abstract interpretation of the Python syntax trees over opaque arguments, against the binding table extracted from the IR of the module initialiser', 'Complete for the call patterns enumerated in the evidence.')
prop('C21', 'Surfaces and volumes keep their geometry',
     'A regular surface interpolates bilinearly between the nodes around a point, over the present ones when some are missing, and is missing where none is; its nodes, indices, extents, arithmetic and statistics follow from origin, lengths and sizes and skip missing nodes, and a rotated surface is the same turned about its reference point, with bounds to match after every change. Resampling a rotated surface gives its values at the new nodes. A volume answers containment, coordinates, centre, depth extremes, thickness and coverage in its rotated frame and between its surfaces; changing the geometry equals creating anew, and copies are equal and independent.',
     ['inputs', 'histories'], 'all geometries, node values and points on the enumerated sizes and missing-node patterns', 'Rotation, missing nodes and later changes combine; the tests hold a few axis-aligned samples.',
     ['src/nrlib/surface/regularsurface.hpp', 'src/nrlib/surface/regularsurfacerotated.hpp', 'src/nrlib/surface/surface.hpp', 'src/nrlib/volume/volume.cpp'], [('interpolation', 'src/nrlib/surface/regularsurface.hpp'), ('rotated frame', 'src/nrlib/surface/regularsurfacerotated.hpp'), ('volume', 'src/nrlib/volume/volume.cpp')],
     'value-flow equivalence of surface and volume operations with their definitions by hat-function weights and rotations, decided on the IR', 'Grids up to 3x4 nodes; points exactly on grid lines are decided on concrete geometry.')
prop('C22', 'Geometry primitives and interpolation follow their definitions',
     'Points and vectors obey vector algebra; lines, rays and segments give the nearest point, distance, side and crossing that respect their end points, and planes, triangles and boxes the true projections, distances, corners and crossings; a polygon answers containment, orientation, convexity, extent, length, tangents and least rectangle independently of where it lies and at which point its list starts. Transformations compose in the order they were added, and patches interpolate their corners. Linear and natural-spline interpolation pass through the given points, follow the segment or spline that holds the argument, extend the outermost one (or give the requested value) outside, and reject unknown methods.',
     ['inputs'], 'all coordinates, end-point kinds and knots; polygons of 3 to 6 points', 'Degenerate positions, end-point combinations and orientations multiply far beyond the three sampled tests.',
     ['src/nrlib/geometry/point.hpp', 'src/nrlib/geometry/line.cpp', 'src/nrlib/geometry/plane.cpp', 'src/nrlib/geometry/triangle.cpp', 'src/nrlib/geometry/box.cpp', 'src/nrlib/geometry/polygon.cpp', 'src/nrlib/geometry/transformation.cpp', 'src/nrlib/geometry/bilinearsurface.cpp', 'src/nrlib/geometry/interpolation.cpp'], [('lines', 'src/nrlib/geometry/line.cpp'), ('polygons', 'src/nrlib/geometry/polygon.cpp'), ('interpolation', 'src/nrlib/geometry/interpolation.cpp')],
     'value-flow equivalence of each geometric query with its algebraic definition over symbolic coordinates, decided on the IR', 'Exact coincidences (points on edges, parallel lines) are decided on concrete geometry; the crossings of a line with a bilinear patch are documented as unstable and not claimed.')
prop('C23', 'SEG-Y geometries tie positions, line numbers and cells together',
     'For every geometry, built from traces (any direction, hand, order, line steps, missing traces, a single line or a single trace), from a surface, from parameters or from a reference trace with any line spacing, the position, the in-line and cross-line numbers and the cell of each trace map to one another consistently and exactly: line numbers and positions invert each other at any point, cells are the unit squares of the geometry and points or lines outside it are rejected, and the traces are ordered and indexed by cell. Traces that lie more than half a spacing from where their line numbers place them, and an empty set of traces, are rejected. A part requested by line ranges has the lines asked for, moved to existing ones where needed, at the positions they have in the whole; ranges beyond the geometry are rejected, and the lines covering another geometry are the smallest aligned range that contains it.',
     ['inputs'], 'all origins, spacings and rotations for given numbers of lines; twelve directions, both hands and all trace orders for concrete surveys', 'Orientation, hand, numbering direction and trace order combine into far more cases than a handful of sampled files.',
     ['src/nrlib/segy/segygeometry.cpp', 'src/nrlib/segy/segygeometry.hpp', 'src/nrlib/segy/segytrace.cpp'], [('geometry', 'src/nrlib/segy/segygeometry.cpp')],
     'value-flow equivalence of the mappings between positions, line numbers and cells with the affine definition of the survey, over symbolic origins, spacings, rotations and points, decided on the IR', 'Numbers of lines are concrete (up to 12 per axis); the optional regularisation of non-orthogonal surveys is not claimed. The message log is not observed.')
prop('C24', 'Kriging, conditional distributions and statistics follow their definitions',
     'Kriging of lines, grid nodes and surfaces gives at every place the trend plus the data residuals weighted by the simple-kriging equations for the given variogram - or that correction alone - reproduces every datum at a known place, averages data that share a node and skips missing ones; working in blocks that see all data gives the same field. Conditional means and covariances, also with secondary data whose correlation is scaled and of which (nearly) coinciding ones are represented by the first, are those of the joint normal distribution; multivariate normal draws have the mean and covariance asked for and the potential is minus the log density. Symmetric systems are solved, inverted and factorised exactly and matrices that are not positive definite are rejected, and counts, sums, means, variances, covariances and extremes of samples follow their definitions and skip missing values.',
     ['inputs'], 'all data, trends, covariances and spacings for up to three data on the enumerated grids, and all samples of up to four values', 'Weights, block borders, coinciding data and missing values combine into cases that two sample tests cannot reach.',
     ['src/nrlib/statistics/kriging.cpp', 'src/nrlib/statistics/nodalkrigingdata2d.cpp', 'src/nrlib/statistics/continuouskrigingdata2d.cpp', 'src/nrlib/statistics/posteriormultinormal.cpp', 'src/nrlib/statistics/multinormal.cpp', 'src/nrlib/statistics/statistics.hpp', 'src/nrlib/flens/nrlib_flens.cpp'], [('kriging equations', 'src/nrlib/statistics/kriging.cpp'), ('conditional distributions', 'src/nrlib/statistics/posteriormultinormal.cpp')],
     'value-flow equivalence of predictions, weights and moments with the kriging and conditioning equations solved by determinants, over symbolic data and covariances, decided on the IR; the linear-algebra library is represented by reference routines', 'Up to three data and grids up to 17x26; how a surface is split into blocks with a short reach is decided only where data are reproduced.')

prop('C25', 'Concurrent calls behave as if made one after another',
     'The Python interface may be used from several threads at once, also in interpreters without a global lock: no two calls race on state they share, whatever their arguments and timing, unless they were given the same object and change it. All random numbers of one simulation, and the choice of a seed for an unseeded one, happen without another call in between. Calls always return: they leave no lock held, also when they fail, and cannot deadlock with each other or with the interpreter.',
     ['schedules', 'histories', 'fault_sequences'], 'all interleavings of calls in several threads, all failing allocations', 'Tests run in one thread under the global lock; a race needs a particular interleaving and usually only corrupts values.',
     ['src/gaussfft.cpp', 'src/gaussfftinterface.cpp', 'src/nrlib/random/random.cpp', 'src/nrlib/random/dsfmt.cpp', 'src/nrlib/fft/fftgrid3d.hpp', 'src/nrlib/variogram/variogram.cpp'], [('module declaration and binding table', 'src/gaussfftinterface.cpp'), ('shared generator and lock', 'src/gaussfft.cpp')],
     'lockset and lock-order analysis on the abstract memory accesses of whole calls (LLVM IR): every access to storage that outlives a call is recorded with the locks held; check-then-act and critical-section rules; lock balance on normal and exceptional exits', 'Locks are std::mutex and its kin, function-local static guards and atomics; FFTW plan creation and destruction count as accesses to one shared planner unless it was made thread safe. Histories of calls are the enumerated entries; allocation failures are injected at evenly spread points (all of them in the thorough tier).')

prop('C90', 'Automatic padding makes opposite edges practically uncorrelated',
     'With automatic padding the two ends of a simulated field are practically uncorrelated, for every variogram family, range and grid, so that the wrapped covariance equals the requested one within the grid.',
     IN, 'all variograms and grids', 'The residual correlation depends on family, range and size together.',
     ['src/nrlib/variogram/gaussianfield.cpp', 'gaussianfft/util/padding_analyzer.py'], [('default padding', 'src/nrlib/variogram/gaussianfield.cpp')], '', '',
     na='"Practically uncorrelated" is a numerical and statistical judgement about how far a correlation has decayed; no rule over the source decides it. What is exact in it is claimed elsewhere: the announced and used sizes (C07) and the covariance actually produced (C01).')
prop('C91', 'Empirical variogram estimates converge to the true variogram',
     'The estimators of gaussianfft.util return, for growing numbers of simulations, the correlation or variogram of the simulated fields at the reported distances, and the padding analysis and resource extrapolation follow from them.',
     IN, 'all variograms, grids and sampling strategies', 'Convergence holds for ensembles, not for one run.',
     ['gaussianfft/util/empirical_variogram.py', 'gaussianfft/util/empirical_variogram2.py', 'gaussianfft/util/padding_analyzer.py', 'gaussianfft/util/resource_extrapolator.py'], [('estimators', 'gaussianfft/util/empirical_variogram.py')], '', '',
     na='Quantifies over ensembles of simulations and over numerical routines inside NumPy and SciPy (binning, clustering, least squares) whose sources are not part of the repository; no static argument in reach bounds the result.')
prop('C92', 'Time and memory grow as the announced simulation size',
     'Simulation takes time and memory proportional (up to a logarithm) to the announced simulation size, for every grid and padding.',
     IN, 'all grids and paddings', 'Tests run small grids only.',
     ['src/nrlib/variogram/gaussianfield.cpp', 'src/nrlib/fft/fft.cpp'], [('transform sizes', 'src/nrlib/fft/fft.cpp')], '', '',
     na='Time depends on the machine and on the plans the transform library chooses at run time. The memory actually requested is covered as far as sizes go by C06 and C08.')
