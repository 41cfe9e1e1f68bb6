"""Single table behind properties.jsonl and MANIFEST.json.

P(id, title, statement, over, quantifier text, why tests can't, files, mechanism,
  technique, level note)  or  na=reason
"""
T = []
S = 'src/solarspatialtools/'


def P(id, title, statement, over, quant, why, files, mech, tech=None, note=None, na=None):
    T.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=[S + f for f in files.split()], mech=mech if isinstance(mech, list) else [mech],
                  tech=tech, note=note, na=na))


VG = 'value-graph equivalence (gated value numbering over all paths, symbolic lengths and labels) against the documented formula'
EFF = 'interprocedural effect / alias analysis over the value graph'
DEP = 'dependence (information-flow) analysis on the value graph'

P('P01', 'Public functions never modify their arguments',
  'Calling any public analysis function leaves every array, series, frame, list and dictionary the caller passed unchanged in values, labels and shape. Results that the caller may edit do not share storage with another argument in a way that a later call would see. The only exception is the documented in-place zeroing of the signal given to the frequency cleaning helper.',
  'inputs histories', 'for every public function, every container kind and option value it accepts',
  'tests compare return values on a few inputs and rarely look at the arguments again; an in-place write shows only for particular container kinds, dtypes and later reuse',
  'signalproc.py cmv.py field.py stats.py spatial.py irradiance.py synthirrad/copula.py synthirrad/cloudfield.py dataio/hope_campaign.py',
  ['every public entry point; option dictionaries of the cloud motion vector routines; quality-control column updates'],
  EFF + ' (points-to roots of every container write)', 'every mutation event reachable from a public entry point is mapped to the set of caller-owned objects it may write')

P('P02', 'No process-wide or hidden state',
  'Calling an analysis function leaves no trace in the process: floating point error handling, warning filters, global random state, environment and module-level data are as they were before the call. A second call with equal arguments therefore returns an equal result regardless of what was called in between. (The cloud field generator is exempt for drawing from numpy\'s global generator, which is its documented source of randomness, and unseeded copula downscaling for drawing fresh entropy.)',
  'histories inputs', 'for every sequence of calls in one process',
  'tests run functions in isolation and never compare the process state before and after, nor interleave calls with different arguments',
  'signalproc.py cmv.py field.py stats.py spatial.py irradiance.py synthirrad/copula.py synthirrad/cloudfield.py',
  ['module-level names, numpy error state, warning filters, global random generator, memoised functions'],
  EFF + ' (global writes, error state, warning filters, global random generator, memoisation)', 'every effect event in the closure of each public function')

P('P03', 'Figures and console output appear only on request',
  'Analysis functions create figures or print only when the caller asks through the corresponding argument; with that argument at its default no drawing or output call is reached, and with it enabled the numerical result is the same as without it. (The basic field scaling is exempt for the one warning line it prints when it cannot reach the requested level.)',
  'inputs configurations', 'for every function with a plotting switch and all of its inputs',
  'the tests never switch plotting on and cannot observe every path with it off',
  'stats.py signalproc.py cmv.py synthirrad/cloudfield.py synthirrad/copula.py',
  ['plot arguments of the cloud field and copula helpers and of the delay functions'],
  EFF + ' (guards of every drawing or printing call) and ' + VG, 'path condition of each plot/print event, and equality of the result under plot on/off')

P('P05', 'Unknown option strings are rejected',
  'Every argument that selects among named alternatives rejects any other string with an error, for every kind of input, instead of silently continuing with a default or returning nothing.',
  'inputs configurations', 'for every string outside the documented set, and every input kind',
  'tests try at most one bad string for one input kind; the set of strings is infinite',
  'signalproc.py cmv.py field.py synthirrad/cloudfield.py synthirrad/copula.py',
  ['scaling, method, mode, shape, backend and option-name dispatch'],
  'path-sensitive reachability: an option string different from every accepted literal must reach only raising exits', 'the option is an arbitrary symbolic string assumed different from the accepted literals')

P('P06', 'Only declared third-party packages are needed',
  'Importing and using the package needs only the packages declared as requirements (optional ones only where the declared extra covers them); no module imports, at load time or inside a function, a package that is not declared.',
  'programs configurations', 'for every module and every function-level import',
  'the test environment has many extra packages installed, so an undeclared import still works there',
  '__init__.py signalproc.py cmv.py field.py spatial.py stats.py irradiance.py', ['import statements of every module; requirements in the packaging metadata'],
  'import-graph query over the syntax trees, checked against the declared requirements', 'every import statement (module level and nested) of every module')

P('P07', 'UTM conversion: zones, hemisphere, elementwise and invertible',
  'Converting latitude/longitude to UTM uses the requested zone, or else the standard 6-degree zone of the (mean) longitude from 1 to 60, and the southern convention for points south of the equator; converting back with the returned zone and hemisphere restores the point. Sequences are converted point by point exactly as scalars would be (one row per point, in order, keeping the index of a series), and inputs of different lengths are rejected.',
  'inputs', 'for every coordinate, zone, container kind and length',
  'tests sample a few sites, mostly in one hemisphere and with one container kind',
  'spatial.py', ['latitude/longitude to UTM and back, zone computation'], VG, 'scalar, list, array and series contexts; projection is an uninterpreted invertible function of (zone, hemisphere, point)')

P('P08', 'Local coordinate system is one planar projection about the origin',
  'Conversion to the local system about one origin projects target and origin in one UTM zone and one hemisphere (the requested zone, or the origin\'s) and subtracts, so the origin maps to (0, 0); the inverse is its exact inverse with the same convention. Points are converted independently of each other, keeping order and labels.',
  'inputs', 'for every origin, target, zone (also targets across a zone boundary or the equator) and container kind',
  'tests sample points in the middle of one zone where wrong zone handling is invisible', 'spatial.py',
  ['latitude/longitude to local coordinates and back'], VG, 'scalar, list, array and series contexts')

P('P09', 'Flat-earth conversion is the WGS84 formula about the reference point',
  'The flat-earth conversion multiplies the longitude and latitude differences by the WGS84 prime-vertical (times cosine of the reference latitude) and meridional radii evaluated at the reference point, returning east first; the alternative method is a transverse Mercator projection centred on the reference. The reference itself maps to (0, 0), and points are converted independently for every container kind.',
  'inputs configurations', 'for every reference, point, method and container kind', 'tests compare a few nearby points with a tolerance under which swapped radii are invisible',
  'spatial.py', ['flat-earth local coordinates'], VG, 'closed-form equality as rational trigonometric terms')

P('P10', 'Projection onto a direction ignores the direction\'s length',
  'Projecting vectors onto a direction gives the signed length of each vector along that direction, independent of the length of the direction vector, negated when the direction is reversed, one value per vector in the input order; a frame keeps its index and gets one column named dist.',
  'inputs', 'for every set of vectors (array, frame, list of pairs) and every nonzero direction',
  'tests use a few vectors, mostly with unit directions for which a missing normalisation cannot show', 'spatial.py',
  ['vector projection helper'], VG, 'arrays, frames and lists of any length')

P('P11', 'Polar conversion, lengths, dot products and rotations are geometric',
  'Rectangular to polar follows r = sqrt(x^2 + y^2), theta = atan2(y, x) (radians counter-clockwise from east) and converting back restores the vector; magnitude, dot product and unit vector are the textbook values; rotation is counter-clockwise, preserves length, is undone by the opposite angle and treats each column of a stack alike.',
  'inputs', 'for every vector, angle and container kind', 'tests sample a few angles and vectors', 'spatial.py',
  ['rectangular/polar helpers, dot, magnitude, unit, rotation'], VG, 'tuples, lists, arrays, series and stacks; compositions of both directions')

P('P12', 'Vectors from a reference point to every other point',
  'The vector table holds, for every point, its position minus the reference position (east first), one row per point in input order (a series keeps its index and gets the columns dx and dy), whatever container holds the reference and whatever extra entries follow its two coordinates.',
  'inputs', 'for every number of points, labels and container kind', 'tests use small layouts and one kind of reference', 'spatial.py',
  ['reference-to-point vectors'], VG, 'symbolic number of points; all container kinds')

P('P13', 'The intersection point satisfies both projection constraints',
  'For two vectors that are projections of one unknown vector, the computed point has exactly those two projections: it lies on the perpendicular through the tip of each given vector, one result per pair in order.',
  'inputs', 'for every pair of non-parallel vectors, any number of pairs', 'tests use axis-aligned pairs where terms vanish', 'spatial.py', ['perpendicular intersection'], VG, 'symbolic pairs; polynomial identity of the constraint')

P('P14', 'Space-time distances follow the drifting cloud frame, site-major',
  'The space-time distance table has one row and column per (site, time) combination ordered site by site, and each entry is the Euclidean distance between the two sites after moving each by the cloud velocity times its time; it is symmetric with zero diagonal.',
  'inputs', 'for every set of sites, times, speed and direction', 'tests use tiny grids for which orderings coincide', 'spatial.py synthirrad/copula.py',
  ['space-time distance table used by the copula downscaling'], VG, 'symbolic number of sites and times')

# ---------------------------------------------------------------- cloud motion vectors
P('P15', 'Cloud motion result: speed not negative, direction in [0, 2 pi), consistent',
  'The cloud motion vector is returned as a non-negative speed and a direction in [0, 2 pi) counter-clockwise from east, for every method; it is the direction in which the delays increase, so a signal seen later at a site lying east of another gives an eastward cloud. Whenever a vector could be computed, the details returned alongside (speed, direction, the pairs with their lags, correlations and separations along the direction, percentile speeds and the trend flag) describe that same vector and those pairs.',
  'inputs configurations', 'for every method, delay backend, option set and site layout with usable pairs',
  'tests compare a few data sets to stored numbers; the range and the agreement between result and details must hold for all data',
  'cmv.py', ['final vector of each method and the details object'], VG, 'symbolic sites and delays; pair delays are arbitrary values')
P('P16', 'Only pairs that pass quality control influence the cloud motion vector',
  'The vector is computed from the pairs flagged good and from no others: changing the data of a rejected pair (short of changing its flag) changes nothing. With at most one good pair the result is zero speed and direction with the all-bad flag, and a site paired with itself is never good.',
  'inputs configurations', 'for every set of pairs, flags and method', 'tests contain few rejected pairs, and their data never vary independently',
  'cmv.py', ['pair quality control and the selection of good pairs'], VG + ' and ' + DEP, 'symbolic number of pairs')
P('P17', 'Quality-control thresholds and options of each method are applied as given',
  'Every documented option of a cloud motion method overrides its default and only its own threshold; the remaining options keep the documented defaults, and a pair receives the documented flag exactly when it crosses the corresponding threshold. Unknown options, methods and delay backends are rejected with ValueError.',
  'inputs configurations', 'for every option subset and value, and every pair', 'tests set one or two options and look only at the end result', 'cmv.py',
  ['option validation and the pair quality checks of both methods'], VG, 'option values symbolic; flag of each pair as a function of its measurements')
P('P18', 'Cloud motion depends only on relative positions',
  'Moving every site by the same offset leaves the cloud motion vector, the flags and the separations of the pairs unchanged; absolute coordinates enter nowhere.',
  'inputs', 'for every layout, offset and method', 'tests use one layout in one coordinate frame', 'cmv.py spatial.py',
  ['pair geometry of both methods'], 'relational value-graph analysis: the same call on positions and on shifted positions must give the same value number', 'two abstract runs compared')
P('P19', 'Time series and positions are matched by site identifier',
  'Series columns and position rows are matched by their labels, never by place: whatever the order of the series, whatever further series the table carries, and in whatever order the position table lists the sites, each site keeps its own series in the cloud motion and site location routines.',
  'inputs', 'for every order of columns and rows and every set of extra series', 'tests keep both tables in the same order', 'cmv.py field.py',
  ['label lookups of positions in the cloud motion and predicted position routines'], VG + ' with symbolic, independent label orders', 'row and column order are unrelated in the abstract input')
P('P20', 'Optimum subset: distinct vectors closest to evenly spread directions',
  'The optimum subset of cloud motion vectors returns positions into the input: the assignment of distinct vectors to the requested number of directions evenly spread over half a turn, at the rotation for which the vectors match these directions best, the length and the sense of a vector playing no part (ten directions by default).',
  'inputs', 'for every number of vectors and requested size', 'tests use a handful of vectors', 'cmv.py', ['subset selection helper'], VG, 'selection loop analysed symbolically')

# ---------------------------------------------------------------- signal processing
P('P21', 'Correlation delays: sign, unit and per-pair extras',
  'The correlation-based delay between an input and an output is in seconds, positive when the output lags, and equals minus the lag of the maximum of the full cross-correlation. The many-pair routine gives for each pair exactly what the single-pair rule gives for its two columns, in either computation mode, together with the peak, mean and zero-lag correlation of that same pair; pairs without correlation get zero delay.',
  'inputs configurations', 'for every pair count, length, sampling period, mode and scaling', 'tests use a few synthetic shifts, mostly with one second sampling and one mode', 'signalproc.py',
  ['single-pair and many-pair correlation delay functions'], VG + ' with random interpretation of residual terms', 'symbolic number of pairs, length and sampling period; both modes')
P('P22', 'Cross-correlation normalisations and lags',
  'Each normalisation of the cross-correlation is the documented one (raw, energy, coefficient, and the unbiased forms that divide by the overlap fraction), returned with the lag of every value; the multi-row FFT variant equals the direct one row by row.',
  'inputs configurations', 'for every scaling and pair of signals', 'tests check peaks of one or two scalings', 'signalproc.py', ['correlation functions'], VG, 'symbolic lengths and rows')
P('P23', 'Averaged spectra honour every option and keep labels',
  'The averaged power spectrum is the Welch estimate of each column with the requested number of segments, overlap, window, detrending and scaling; the averaged transfer function is cross spectrum over input spectrum and its coherence is magnitude squared, computed per pair with one-to-many and many-to-one pairing. Results are indexed by frequency in Hz from the sampling interval, with columns named after the columns they come from; mismatched column counts are rejected.',
  'inputs configurations', 'for every container kind, column count, option value and sampling period', 'tests use default options on a few columns', 'signalproc.py',
  ['averaged spectrum and transfer function'], VG, 'series and frames with symbolic column count; options default and symbolic')
P('P24', 'Transfer-function delay uses exactly the permitted frequency bins',
  'The delay from a transfer function is derived only from bins whose coherence exceeds the coherence limit and whose frequency is below the frequency limit; a limit of None removes that restriction. The returned mask marks those bins, the delay is minus the phase slope in seconds, and with no usable bin the fit yields nan instead of failing.',
  'inputs configurations', 'for every transfer function, coherence, limit and method', 'tests use clean signals where nearly all bins qualify', 'signalproc.py', ['transfer function delay'], VG, 'curve fit and least squares are uninterpreted functions of their data')
P('P25', 'Transfer-function delays pair signals and report per-pair extras',
  'The transfer-function based many-pair delay gives for each pair (one-to-one, one-to-many or many-to-one) the delay from that pair\'s own transfer function with the requested spectral and limit options, plus its mean coherence below the frequency limit, the mask of bins used and, only on request, the correlation of that pair at the delay, on average and at zero lag.',
  'inputs configurations', 'for every pairing, method and option value', 'tests check shapes and a few values', 'signalproc.py', ['many-pair transfer function delay'], VG + ' with random interpretation of residual terms', 'symbolic column counts and options')
P('P26', 'Applying a delay to a transfer function is a pure phase shift',
  'Applying a delay multiplies each frequency bin by a unit phasor whose phase is minus two pi times that bin\'s own frequency times the delay, so magnitudes are kept, zero delay changes nothing and delays add.',
  'inputs', 'for every transfer function, frequency axis and delay', 'tests apply one delay to one function', 'signalproc.py', ['delay application'], VG, 'symbolic bins')
P('P27', 'Spatial smoothing filters follow the plant geometry and cloud motion',
  'The plant density has one component of the requested shape and width at every site position relative to the reference; the cloud advection filter is its normalised spectrum over frequency equal to speed times wavenumber, unity at zero frequency, with phase referred to the reference point and mirrored for opposite motion. From a site table it projects every site onto the cloud direction (whatever its length) in one map projection shared with the reference. The area filter is a first-order low pass with the documented cutoff, for any frequency vector.',
  'inputs configurations', 'for every layout, speed, direction, shape, width and spacing', 'tests check a few layouts in one coordinate system', 'signalproc.py spatial.py',
  ['plant layout, cloud advection filter, area filter, frequency cleaning'], VG, 'symbolic sites, spacing, extent, speed and direction')
P('P28', 'Filtering a signal resamples the transfer function and keeps the time axis',
  'A transfer function is resampled by interpolating magnitude and unwrapped phase separately over its sorted frequencies, keeping columns; filtering a signal multiplies its spectrum by the resampled function and returns a real series on the original time index, and is rejected exactly when the transfer function does not reach the highest signal frequency.',
  'inputs', 'for every transfer function order, length and sampling', 'tests filter one signal with one function', 'signalproc.py', ['transfer function interpolation and filter application'], VG, 'symbolic lengths and frequency order')
P('P31', 'Rolling quantile never uses future data',
  'The rolling quantile for a moment uses only observations at the same time of day from the trailing window of days ending at that moment, never later ones, and returns a value for every timestamp of the input.',
  'inputs', 'for every series, window and quantile', 'tests use regular short series', 'stats.py', ['rolling time-of-day quantile'],
  na='which rows a window selects is decided by label-range slices over calendar days, by text (a day and a time of day joined and parsed back to time stamps) and by a loop that leaves early depending on the data; no static argument in reach bounds these run-time quantities (DESIGN 2.4)')

# ---------------------------------------------------------------- synthetic irradiance
P('P33', 'Synthetic series depend on randomness only through the seed',
  'The copula downscaling draws all of its randomness from a generator created from the given seed, so equal seeds give equal series whatever was drawn before, no seed gives fresh ones, and the caller\'s global random state is never consumed or reset.',
  'histories inputs', 'for every seed and every prior use of the random generators', 'tests cannot interleave every other consumer of global random state', 'synthirrad/copula.py',
  ['random draws of the copula downscaling'], EFF + ' (origin of every random draw)', 'every random draw in the closure of the public functions')
P('P34', 'Mixture weights form a distribution with the requested mean',
  'The component weights of the clear-sky index mixture derived from the mean sum to one and reproduce the requested mean for every mean, are non-negative with the default (published) parameters, the density is that of the weighted normal mixture, the distribution its running sum over the given points scaled to end at one, and the helper functions (sigmoid, exponential decay, inverse sampling) are the documented formulas.',
  'inputs', 'for every mean clear-sky index and parameter set', 'tests evaluate a few means', 'synthirrad/copula.py', ['mixture parameters, density, distribution function, helpers'], VG, 'closed forms')
P('P35', 'Downscaled series: one per site, every time step, non-negative on request',
  'The downscaled result has one row per requested time and one column per site in the given order; with the non-negative option no value is below zero, with the scaling option each hour keeps the requested mean, and switching an option off removes exactly that adjustment.',
  'inputs configurations', 'for every number of sites and times and option combination', 'tests fix one configuration', 'synthirrad/copula.py', ['copula downscaling post-processing'], VG, 'symbolic sites and times; random draws arbitrary')
P('P36', 'Multi-hour downscaling uses each hour\'s own inputs',
  'Multi-hour downscaling produces for each hour exactly the single-hour result for the times of that hour with that hour\'s mean, cloud speed and direction, in time order, whether those are given per hour or as single values.',
  'inputs', 'for every number of hours and kind of argument', 'tests use two or three similar hours', 'synthirrad/copula.py', ['multi-hour downscaling'], VG, 'symbolic hours')
P('P37', 'Cloud fields: masks, scaling and forwarded options',
  'The clear mask covers the requested fraction of the field (threshold at that quantile), edges are found on the mask, scaling maps the field so that clear parts, cloudy parts and edges take the documented levels, and every option of the field generator reaches the step it belongs to; invalid combinations are rejected.',
  'inputs configurations', 'for every field size, fraction, level and option', 'tests use random fields with loose bounds', 'synthirrad/cloudfield.py', ['field masks, scaling, generator'], VG, 'field values and random draws arbitrary')
P('P38', 'Sites sample the drifting cloud field at their own position',
  'The time series of a site is the field sampled along the wind axis at the offset of that site and advancing with cloud speed times time, rows following the cross-wind position, with the pixel resolution applied to both axes; sites at different positions see the same pattern with the lag given by distance over speed.',
  'inputs', 'for every position, field, speed, duration and pixel size', 'tests use unit pixels and one or two sites', 'synthirrad/cloudfield.py', ['positional time series'], VG, 'symbolic field and positions')

# ---------------------------------------------------------------- field analysis
P('P39', 'Remapping moves every column at once',
  'Remapping data to new site identifiers applies all replacements simultaneously (chains and swaps included): each target site receives the series that its source had before the call, and sites outside the mapping keep their own.',
  'inputs', 'for every mapping, including swaps and cycles', 'tests use one swap', 'field.py', ['position remapping of series'], VG, 'symbolic mappings')
P('P40', 'Site assignment is one-to-one and of minimum total distance',
  'For two tables listing the sites in the same order, each prediction is paired with exactly one original site so that the total Euclidean distance over all pairs is minimal, using only the first two (east and north) columns; the pairs (predicted site, site whose position it takes) come sorted by identifier and the returned table is the original one remapped by them. Sites without a prediction keep their own position and the others are assigned among themselves.',
  'inputs', 'for every number of sites, labels and extra columns', 'tests use small layouts', 'field.py', ['assignment of predicted positions'], VG + ' (cost matrix handed to the assignment solver)', 'symbolic sites')
P('P41', 'Cascading two remappings equals applying them one after the other',
  'For two remappings over the same identifiers, the cascade pairs each identifier with what the first remapping gives for the identifier named by the second, sorted by identifier, so remapping a table with the cascade equals remapping it with the first and then with the second.',
  'inputs', 'for every pair of mappings', 'tests use one pair', 'field.py', ['cascaded remapping'], VG, 'symbolic mappings')
P('P42', 'Predicted positions come from the given cloud vectors and each pair\'s own delay',
  'The predicted position of the reference site is its listed position plus the displacement whose component along each of the two cloud directions is the mean, over the sites selected for that data set, of the residual between the distance implied by the delay (minus speed times delay of the reference relative to the site) and the planned distance along that direction. Each site uses the delay and coherence of its own series with the requested spectral options; the sites are selected by the rule of the mode (best coherence per data set, best combined coherence, smallest distance, all); without given vectors they are computed from the data sets; tables are matched by site identifier and extra columns are ignored.',
  'inputs configurations', 'for every number of data sets and sites, order of tables, mode and options', 'tests use few sites in table order', 'field.py', ['predicted position routine'], VG, 'delays are arbitrary per pair; symbolic sites')
P('P43', 'Deprecated delay wrapper equals the function that replaces it',
  'The deprecated field-level delay function warns and returns exactly what the replacing function returns for the same arguments.',
  'inputs configurations', 'for every argument combination', 'tests call it once', 'field.py', ['deprecated delay wrapper'], VG, 'all arguments symbolic')

# ---------------------------------------------------------------- data input
P('P44', 'Existing files are never destroyed without consent',
  'The file helpers touch only the paths they were given: a download writes exactly the given file, list downloads skip files that already exist and store every other one under its own name in the target folder, an existing folder is left alone, source files are only read (and closed). Building a campaign archive over an existing file is rejected unless overwriting was requested, and then no rows of the old archive survive; the command line tool deletes or rewrites an existing archive only after the user answered yes. The directory listing holds exactly the files with the wanted extension, sorted on request. No function outside the data input and plotting modules touches the file system.',
  'inputs histories', 'for every pre-existing file state, answer and argument combination', 'tests do not exercise every pre-existing state', 'dataio/iotools.py dataio/hope_campaign.py dataio/nrcan_data.py',
  ['download helpers, directory listing, conversion to archive files, command line tool'], EFF + ' (path and guard of every destructive file operation)', 'every file effect in the closure of each public function')
P('P45', 'Quality flags and gap filling change only what they announce',
  'Flag-based quality control blanks exactly the samples whose flag is at or above the given lowest unacceptable level (2 unless given), null control exactly the readings below -100; gap filling replaces only missing samples lying between valid ones of the same site, by interpolation, and a run of missing samples longer than the limit (5 unless given) stays missing entirely. Every other sample is kept, the input frames are not modified, and the command line tool stores the data controlled by the method asked for with flags and stations unchanged.',
  'inputs configurations', 'for every frame, flag level and gap limit', 'tests use one short gap', 'dataio/hope_campaign.py', ['campaign data quality control'], VG, 'symbolic frames')
P('P46', 'Campaign archives hold every source value at its own station and time',
  'A campaign source file is read without masking into irradiance and flag tables indexed by its time stamps in UTC with one column per station identifier and a station table of latitude and longitude per identifier; the archive built from a folder holds the rows of every source file, in sorted file order, for data and flags, and the station table of the first file.',
  'inputs histories', 'for every station and time count and folder content', 'tests contain no source files', 'dataio/hope_campaign.py', ['campaign source parser and archive builder'], VG, 'symbolic station and time counts; archives of up to three source files')
P('P47', 'Sensor conversion puts every sensor in its own column on an even time grid',
  'Converting a folder of sensor files produces, for the horizontal and for the tilted readings, a table with one column per sensor named after its file, on the times of the first sensor at fixed GMT-5 resampled forward to 10 ms, each column holding the readings of its own file, and a site table indexed by site with latitude and longitude; site list files and other file types in the folder are skipped.',
  'inputs', 'for every length and content of the sensor files', 'tests contain no sensor files', 'dataio/nrcan_data.py', ['sensor file conversion'], VG, 'folders with one and with several sensor files; file content symbolic')


P('P29', 'Error metrics equal their definitions on every input kind',
  'Bias, absolute and squared errors are taken as estimation minus baseline element by element, and the mean bias, mean absolute, mean squared and root mean squared metrics are the plain means (root) of these; missing values are not silently replaced.',
  'inputs', 'for scalars, arrays of any shape, series and frames of any length', 'tests check a few numbers', 'stats.py',
  ['error metric functions'], VG, 'symbolic shapes, with and without missing values')

P('P30', 'Variability metrics honour interval, averaging and percent options',
  'Variability score, ramp accumulation and variability index are the published formulas on the series (or every column) at the requested interval: moving averages over that interval when enabled, plain differences at that lag otherwise, scaled to percent only on request; the variability index uses the same averaging for measured and clear-sky series and time in minutes.',
  'inputs configurations', 'for every interval, option combination, sampling period and series length', 'tests fix one or two intervals on one data set, usually with 1-unit steps', 'stats.py',
  ['variability score, DARR and variability index'], VG, 'symbolic interval, options and sampling')

P('P32', 'Clear-sky index is capped as requested and finite',
  'The clear-sky index is measured over clear-sky irradiance, limited to the range from zero to the maximum the caller gave, and zero where the ratio is not finite, alike for scalars, arrays, series and each column of a frame.',
  'inputs configurations', 'for every irradiance, clear-sky value, cap and container kind', 'tests use the default cap and one container kind', 'irradiance.py',
  ['clear-sky index helper'], VG, 'cap symbolic and default; scalar, array, series, frame')
