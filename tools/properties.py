"""Single source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe_at, hook_needed=hook))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


prop('C01', 'Box collocation selects exactly the points within every separation',
     'Collocating ungridded data onto ungridded sample points with a separation box uses, for each sample point, exactly '
     'the non-missing data points whose great-circle distance, altitude difference, pressure ratio and time difference '
     'to that sample are all within the requested separations - no more and no fewer. The selection depends only on the '
     'points and the requested separations: not on point order, duplicates, the date line or poles, index tuning, or on '
     'what was collocated before. Sample points that are missing are skipped when asked, and otherwise treated like any other.',
     ['inputs', 'configurations', 'histories'],
     'any data and sample clouds (clustered, polar, antimeridian, duplicated, masked), any subset of h_sep/a_sep/p_sep/t_sep, '
     'index leaf sizes, and repeated collocation of several variables or data lists with the same collocator',
     'The unit tests use one 5x3 regular grid near the equator with a handful of sample points; the tree pruning, the '
     'antimeridian and polar rectangles, combined separations and cached selections are only reached by other point clouds.',
     ['cis/collocation/col_implementations.py', 'cis/collocation/kdtree.py', 'cis/collocation/haversinedistancekdtreeindex.py',
      'cis/collocation/col_framework.py'],
     [('SepConstraintKdtree', 'cis/collocation/col_implementations.py'),
      ('HaversineDistanceKDTree ball queries', 'cis/collocation/kdtree.py'),
      ('sample/data iteration with missing handling', 'cis/data_io/hyperpoint_view.py')],
     ['points handed to a recording kernel for each sample', 'values returned by collocated_onto / Collocator.collocate'])

prop('C02', 'Nearest-point queries return a true nearest point',
     'For every query point, a nearest-neighbour lookup over geolocated points (horizontal, altitude, pressure, time, or the '
     'spatial index used directly for k-nearest and within-distance queries) returns a non-missing point whose distance is '
     'minimal, and radius queries return exactly the points inside the radius. Great-circle distances are symmetric, '
     'non-negative and independent of adding 360 degrees to a longitude.',
     ['inputs', 'configurations'],
     'any point clouds on the sphere including poles, antimeridian, either longitude convention, duplicates, masked points, any leaf size, k and radius',
     'Existing tests query a few fixed trees; pruning bounds fail only for particular geometric configurations of node '
     'rectangles and query points.',
     ['cis/collocation/kdtree.py', 'cis/collocation/haversinedistancekdtreeindex.py', 'cis/collocation/col_implementations.py',
      'cis/data_io/hyperpoint.py', 'cis/utils.py'],
     [('RectangleHaversine.min/max_distance', 'cis/collocation/kdtree.py'),
      ('nn_horizontal, nn_altitude, nn_pressure, nn_time kernels', 'cis/collocation/col_implementations.py'),
      ('haversine / HyperPoint.haversine_dist', 'cis/utils.py, cis/data_io/hyperpoint.py')],
     ['index query results', 'value returned by nearest-neighbour collocation kernels'])

prop('C03', 'Collocation and aggregation kernels compute the documented statistic',
     'Every kernel returns, for each output point or cell, the documented statistic (mean, sample standard deviation, count, '
     'sum, minimum, maximum, moments) of exactly the non-missing values it is given, and the output is missing (or the '
     'fill value) where no value is available. Multi-output kernels and lists of variables yield one correctly named output '
     'per statistic and per variable, each with its own values and units, and user-supplied names and missing-data settings are honoured.',
     ['inputs', 'configurations', 'histories'],
     'any selection sizes including zero and one, masked values, every built-in kernel, single variables and lists, user supplied variable name/long name/units/fill value',
     'Tests use one fixed selection per kernel, mostly without missing values; empty, single-element, masked or multi-variable '
     'combinations are sampled at a few points only.',
     ['cis/collocation/col_implementations.py', 'cis/aggregation/collapse_kernels.py', 'cis/aggregation/ungridded_aggregator.py',
      'cis/collocation/col_framework.py'],
     [('kernel get_value/get_value_for_data_only', 'cis/collocation/col_implementations.py'),
      ('get_variable_details / output construction', 'cis/collocation/col_implementations.py, cis/aggregation/')],
     ['values, masks, names and units of the returned data objects'])

prop('C04', 'Gridded-to-ungridded collocation interpolates correctly everywhere',
     'Collocating gridded data onto sample points gives the multilinear interpolation (or nearest grid value) of the grid at '
     'each sample\'s own position, for any dimension order, ascending or descending axes, irregular spacing, longitude '
     'wrap-around of global grids and terrain/pressure-hybrid vertical coordinates. Samples outside the grid are missing '
     'unless extrapolation is requested, masked grid values never leak in as numbers, and sample order and count are preserved.',
     ['inputs', 'configurations'],
     'any rectilinear grid (1-4 dimensions, permuted, ascending/descending, circular or regional, optional hybrid vertical coordinate), any sample points including coincident with grid nodes, edges and the seam',
     'Tests use one or two small fixed grids; combinations of axis direction, wrap-around, permutation, hybrid coordinates and '
     'sample position form a product space they touch at a few points.',
     ['cis/collocation/gridded_interpolation.py', 'cis/collocation/col_implementations.py', 'cis/data_io/gridded_data.py'],
     [('GriddedUngriddedInterpolator / RegularGridInterpolator', 'cis/collocation/gridded_interpolation.py'),
      ('GriddedUngriddedCollocator', 'cis/collocation/col_implementations.py')],
     ['values and masks of the collocated output compared with an independent interpolation'])

prop('C05', 'Gridded-to-gridded collocation preserves geometry and values',
     'Collocating one grid onto another returns data on exactly the sample grid\'s horizontal (and shared) coordinates whose '
     'value at every cell is the linear interpolation or nearest source value at that cell\'s own location. Source '
     'dimension order, axis direction and dimensions absent from either grid do not change which value lands in which '
     'cell, and cells where the sample is missing are missing in the output when that is requested.',
     ['inputs', 'configurations'],
     'any pair of rectilinear grids, dimension orders, axis directions, extra time/level dimensions, masked samples, nn and lin kernels',
     'Tests collocate a few 5x3 grids with fixed offsets and never vary orientation or extra dimensions together with missing samples.',
     ['cis/collocation/col_implementations.py', 'cis/data_io/gridded_data.py'],
     [('GriddedCollocator', 'cis/collocation/col_implementations.py')],
     ['coordinates, values and masks of the output'])

prop('C06', 'Binning onto a grid places every point in the one cell that contains it',
     'Collocating ungridded data onto a gridded sample by binning assigns each non-missing data point to exactly the grid cell '
     'whose bounds contain it (lower edge inclusive, upper edge exclusive), discards points outside the grid, and leaves cells without '
     'points missing. Each cell\'s statistic is computed from exactly its own points, so counts are conserved, and the result '
     'is laid out on the sample\'s coordinates whatever the sample\'s dimension order, axis direction or longitude convention.',
     ['inputs', 'configurations'],
     'any grid (1-4 dimensions, permuted, ascending/descending, irregular bounds, 0..360 or -180..180), any point cloud including points on edges and with missing values, any kernel, masked sample cells',
     'Tests place a few points in one small grid in one dimension order.',
     ['cis/collocation/col_implementations.py', 'cis/collocation/data_index.py'],
     [('BinnedCubeCellOnlyConstraint / GeneralGriddedCollocator', 'cis/collocation/col_implementations.py'),
      ('GridCellBinIndexInSlices', 'cis/collocation/data_index.py')],
     ['per-cell selections seen by a recording kernel', 'returned cubes'])

prop('C07', 'Aggregating ungridded data covers the requested grid and conserves points',
     'Aggregating ungridded data over any combination of coordinates builds the requested grid (each axis from start to end by '
     'the step, coordinates not given, or given without a grid, collapsed to one cell spanning the range) and gives each cell the statistic of exactly '
     'the non-missing points inside it. The sum of cell counts equals the number of non-missing points inside the requested '
     'ranges, regardless of the order of points, the order in which axes are given, or the units or standard longitudes used.',
     ['inputs', 'configurations'],
     'any axis set (latitude, longitude, altitude, pressure, time), start/end/step including automatic limits and date steps, any data with missing values, every kernel, single variables and lists',
     'Tests aggregate a fixed 5x3 array with a few grids; floating-point grid edges, several axes at once and collapsed axes are combinatorial.',
     ['cis/aggregation/ungridded_aggregator.py', 'cis/aggregation/collapse_kernels.py', 
      'cis/data_io/ungridded_data.py', 'cis/utils.py'],
     [('UngriddedAggregator', 'cis/aggregation/ungridded_aggregator.py'), ('UngriddedData.aggregate', 'cis/data_io/ungridded_data.py')],
     ['grid coordinates, bounds, values, masks and counts of the output'])

prop('C08', 'Collapsing gridded data equals the (area-weighted) statistic over the cells',
     'Collapsing a gridded variable over any set of coordinates gives, for every remaining cell, the statistic of the non-missing '
     'values along the collapsed dimensions, area-weighted exactly when the kernel is a weighted mean including latitude. The other '
     'coordinates are retained with their values, auxiliary coordinates are collapsed consistently, multi-output kernels return all '
     'outputs for every variable, and asking for a partial or unknown collapse fails rather than returning wrong numbers.',
     ['inputs', 'configurations'],
     'any grid of 1-4 dimensions with masks, auxiliary and hybrid coordinates, any kernel, any collapsed coordinate set, lists of variables',
     'Tests collapse small fixed cubes; coordinate-set/kernel/mask combinations are not enumerated and weights are checked on one grid.',
     ['cis/aggregation/gridded_collapsor.py', 'cis/aggregation/collapse_kernels.py', 
      'cis/data_io/gridded_data.py'],
     [('GriddedCollapsor', 'cis/aggregation/'), ('area weights', 'cis/aggregation/')],
     ['collapsed cubes'])

prop('C09', 'Subsetting ungridded data keeps exactly the points inside the limits',
     'Subsetting ungridded data returns exactly the points whose coordinates all lie within the given inclusive limits (or inside the '
     'given shape), with every value, mask and coordinate unchanged and in the original order; longitude limits select the '
     'same physical points whatever longitude convention the data or the limits use. Asking for a subset with no points yields nothing '
     'rather than an empty or wrong object, and lists of variables are subset consistently.',
     ['inputs', 'configurations'],
     'any coordinates (including masked), any limits (numbers, dates, partial dates, crossing the antimeridian), any shapes, single variables and lists',
     'Tests use a 5x3 grid and a few limits; wrap-around and partial-date boundaries and list handling are sampled at single points.',
     ['cis/subsetting/subset.py', 'cis/data_io/ungridded_data.py', 'cis/parse_datetime.py'],
     [('UngriddedSubsetConstraint', 'cis/subsetting/subset.py'), ('_get_ungridded_subset_region', 'cis/subsetting/subset.py')],
     ['returned data objects', 'subset outputs of lists'])

prop('C10', 'Subsetting gridded data keeps exactly the cells inside the limits',
     'Subsetting a grid returns exactly the cells whose coordinate points (for latitude and longitude with bounds: whose cells) lie within the inclusive limits, along every limited axis, '
     'with values, masks, bounds and auxiliary coordinates staying attached to their own cells. Longitude limits crossing the '
     'grid\'s own seam select the same physical cells re-expressed in the requested range, and shape subsets mask every cell outside the shape '
     'without unmasking missing data.',
     ['inputs', 'configurations'],
     'any grid (dimension order, direction, longitude convention), any limits incl. wrap-around, dates and auxiliary coordinates, any shape, single variables and lists',
     'Tests use a couple of small cubes in a canonical dimension order, with a few limits.',
     ['cis/subsetting/subset.py', 'cis/data_io/gridded_data.py'],
     [('GriddedSubsetConstraint', 'cis/subsetting/subset.py'), ('_get_gridded_subset_region', 'cis/subsetting/subset.py')],
     ['coordinates, values and masks of the returned cube'])

prop('C11', 'Changing longitude range relabels points without moving data',
     'Re-expressing the longitudes of a data object in another 360-degree range puts every longitude into that range, changes each only by a '
     'multiple of 360 degrees, and keeps every data value, mask, bound and other coordinate with its own longitude. '
     'Gridded longitudes stay monotonic, and applying the same range again changes nothing.',
     ['inputs', 'histories'],
     'any longitudes (0..360, -180..180, mixed), any range start, gridded (any dimension order, with bounds and auxiliary coordinates) and ungridded, repeated application',
     'Tests use one or two fixed grids and ranges.',
     ['cis/data_io/gridded_data.py', 'cis/data_io/ungridded_data.py', 'cis/data_io/Coord.py', 'cis/utils.py'],
     [('set_longitude_range', 'cis/data_io/'), ('fix_longitude_range / move_item', 'cis/utils.py')],
     ['coordinates and data before and after'])

prop('C12', 'Ungridded data survives saving and re-reading',
     'Saving ungridded data (one variable or a list sharing coordinates) and reading the file back yields the same values, the same missing points, '
     'the same coordinates including time, and the same names, units and long names, for any floating or integer data. Data that '
     'was saved, read and saved again is unchanged, and a product is recognised automatically when reading back.',
     ['inputs', 'histories'],
     'any values (including NaN-adjacent, zero or negative missing values, large/small magnitudes), masks, coordinate sets and shapes, metadata, lists, repeated cycles',
     'Tests write a fixed array and read a few attributes back; masks, dtypes and fill values vary only by hand.',
     ['cis/data_io/write_netcdf.py', 'cis/data_io/netcdf.py', 'cis/data_io/products/products.py', 'cis/data_io/ungridded_data.py'],
     [('write / add_data_to_file', 'cis/data_io/write_netcdf.py'), ('get_data / get_metadata', 'cis/data_io/netcdf.py'),
      ('cis product', 'cis/data_io/products/products.py')],
     ['contents of the NetCDF file', 'object returned by read_data'])

prop('C13', 'Gridded data survives saving and re-reading',
     'Saving gridded data (one variable or a list) and reading it back yields the same values, masks, dimension coordinates, bounds, '
     'auxiliary coordinates, names and units, whichever way it is saved and however many variables the file holds. A variable is found '
     'by its variable, standard or long name, and its processing history is retained and extended.',
     ['inputs', 'histories'],
     'any grid shape/order/mask/metadata, scalar and auxiliary coordinates, lists, repeated cycles',
     'Tests check the call into the underlying library or one example file.',
     ['cis/data_io/gridded_data.py', 'cis/data_io/products/gridded_NetCDF.py', 'cis/data_io/data_reader.py', 'cis/data_io/data_writer.py'],
     [('GriddedData.save_data', 'cis/data_io/gridded_data.py'), ('NetCDF_Gridded', 'cis/data_io/products/gridded_NetCDF.py')],
     ['object returned by read_data'])

prop('C14', 'Reading several files and variables returns everything once, in order',
     'A file specification (names, directories, wildcards, comma lists) expands to exactly the matching files, each listed once, in '
     'a deterministic sorted order, and missing files are an error. Reading one variable from several files returns the '
     'concatenation of all files\' values and coordinates in that order, and requesting variables by name or wildcard returns '
     'each matching variable once, with its own values, aliases and file names.',
     ['inputs', 'configurations', 'histories'],
     'any numbers and sizes of files, wildcards, variable lists with wildcards and aliases, several datagroups read in one process',
     'Tests expand a few fixed patterns and mock the reader.',
     ['cis/data_io/data_reader.py', 'cis/utils.py', 'cis/parse.py', 'cis/data_io/products/products.py', 'cis/data_io/netcdf.py', 'cis/data_io/common_data.py'],
     [('expand_filelist', 'cis/parse.py'), ('DataReader', 'cis/data_io/data_reader.py'), ('read_many_files_individually', 'cis/data_io/netcdf.py')],
     ['expanded lists', 'objects returned by read_data / read_data_list'])

prop('C15', 'Reading satellite files masks invalid values and applies scaling correctly',
     'When a variable is read from NetCDF or HDF4, every stored value flagged as missing or lying outside its declared valid range is missing in the '
     'result, and every other value equals the documented transformation (scale and offset convention of that product) of the stored value. '
     'Coordinates (position, height, time) are attached to the values they were stored with, also across several files and array dimensions.',
     ['inputs', 'configurations'],
     'any stored integers/floats, fill values, valid ranges, scale/offset pairs, for generic NetCDF/HDF reading and the CloudSat, CALIOP, MODIS, CCI, Aeronet, GASSP and ASCII readers',
     'Most product tests need a private data archive and do not run; the remaining ones use a few fixed arrays.',
     ['cis/data_io/netcdf.py', 'cis/data_io/hdf_sd.py', 'cis/data_io/hdf_vd.py', 'cis/data_io/hdf.py', 'cis/data_io/aeronet.py', 'cis/data_io/products'],
     [('get_data / apply_offset_and_scaling', 'cis/data_io/netcdf.py'), ('HDF readers', 'cis/data_io/hdf_sd.py, hdf_vd.py'),
      ('product plugins', 'cis/data_io/products/')],
     ['data objects returned by read_data for synthesised files'])

prop('C16', 'Time values denote the same instants after every conversion',
     'Converting times between calendar dates, reference units (days/hours/seconds since, Julian, TAI seconds, any calendar supported) and the internal standard time '
     'preserves the instant to the precision of the representation, for scalars, arrays of any shape and masked values, and is '
     'monotonic and invertible. Coordinates converted to standard time report the standard unit and their new values everywhere they are viewed.',
     ['inputs', 'histories'],
     'any date 1600-2200 incl. leap days and month ends, any reference unit and array shape/mask, before or after the coordinate has been viewed',
     'Tests convert a few dates; state (cached views) and masks are not exercised.',
     ['cis/time_util.py', 'cis/data_io/Coord.py', 'cis/data_io/gridded_data.py', 'cis/data_io/ungridded_data.py'],
     [('convert_* functions', 'cis/time_util.py'), ('Coord.convert_*', 'cis/data_io/Coord.py')],
     ['converted values, units and all views of a coordinate'])

prop('C17', 'Dates and durations given by users mean what the manual says',
     'A partial date-time such as a year, month or day given as a limit denotes the whole of that period: as a lower limit its first instant, as an upper limit its '
     'last. Full date-times parse to exactly that instant, ISO-8601 style durations give the sum of all their components, and malformed dates, times or durations are rejected.',
     ['inputs'],
     'any date/time string of any precision and separator, any duration string, well formed or malformed',
     'Tests parse around a dozen literals.',
     ['cis/parse_datetime.py', 'cis/time_util.py', 'cis/parse.py'],
     [('_parse_partial_datetime, PartialDateTime', 'cis/parse_datetime.py, cis/time_util.py'), ('parse_datetimestr_delta_to_float_days', 'cis/parse_datetime.py')],
     ['parsed values'])

prop('C18', 'Evaluate computes the expression and cannot do anything else',
     'Evaluating an expression over variables yields the same values (and missing points) as the equivalent array expression applied to the variables\' data, on the '
     'first variable\'s coordinates and with the requested names, units and attributes. The expression can use only the supplied variables '
     'the documented builtins and numpy: any other name, an import, or anything containing a double underscore is refused with an error and without side effects, '
     'and inputs are not changed.',
     ['inputs', 'programs'],
     'any arithmetic/numpy expression over one or more gridded or ungridded variables, and any attempted escape expression using names, dunder attributes or imports',
     'Tests evaluate a handful of expressions and two disallowed ones.',
     ['cis/evaluate.py', 'cis/cis_main.py'],
     [('Calculator.evaluate', 'cis/evaluate.py')],
     ['returned data object', 'side effects observed by an audit monitor'])

prop('C19', 'Comparison statistics equal their definitions over jointly valid points',
     'Each reported statistic (counts, means, standard deviations, absolute and relative bias, standard deviation of differences, correlations, '
     'linear fit gradient, intercept, r and standard error) equals its textbook definition over exactly the points where both datasets have data. '
     'Swapping the datasets swaps or negates the statistics accordingly, and points missing in either dataset have no influence.',
     ['inputs'],
     'any pair of equally shaped arrays with arbitrary masks, scales and correlation, 1-D or more, gridded or ungridded',
     'Tests use one or two small arrays.',
     ['cis/stats.py', 'cis/utils.py'],
     [('StatsAnalyzer', 'cis/stats.py'), ('apply_intersection_mask_to_two_arrays', 'cis/utils.py')],
     ['results returned by analyze'])

prop('C20', 'Arithmetic on data objects matches arithmetic on their arrays',
     'Adding, subtracting, multiplying, dividing, raising to powers and applying unary functions to data objects gives exactly the element-wise result with masks '
     'propagated, from either operand side, and the result has valid, physically consistent units where both operands have units. The operands\' data, '
     'metadata and coordinates are unchanged by non-in-place operations, and in-place operations change only their target.',
     ['inputs', 'histories', 'programs'],
     'any operand shapes, masks, scalars/arrays/objects, unit combinations, operator sequences and cached views',
     'Tests check a few operators once each.',
     ['cis/maths.py', 'cis/data_io/ungridded_data.py', 'cis/data_io/common_data.py'],
     [('operator overloads', 'cis/data_io/ungridded_data.py, cis/maths.py')],
     ['results and operands after each operation'])

prop('C21', 'Analysis operations never modify their inputs',
     'Collocating, aggregating, collapsing, subsetting, evaluating, comparing, converting, copying or saving leaves every input object (data, mask, '
     'coordinates, bounds, units, metadata, attributes and history) and every input file as it was. Results and copies do not share mutable state '
     'with their inputs or with one another: changing one afterwards does not change the other.',
     ['inputs', 'histories', 'programs'],
     'any sequence of public operations on gridded and ungridded objects and lists, followed by mutation of results',
     'Unit tests build fresh inputs for each case and do not look at them afterwards.',
     ['cis/data_io/ungridded_data.py', 'cis/data_io/gridded_data.py', 'cis/collocation', 'cis/aggregation', 'cis/subsetting', 'cis/data_io/common_data.py'],
     [('copying before modification', 'cis/subsetting/subset.py, cis/aggregation/, cis/data_io/')],
     ['fingerprints of inputs before and after each operation'])

prop('C22', 'Commands never overwrite files without permission',
     'No command writes over one of its own input files, and an existing output file is only replaced after explicit agreement (force flag, environment '
     'setting or an affirmative answer); otherwise it is left byte-for-byte unchanged and the command stops. Output goes to exactly the requested '
     'name (with the documented extension), default output names never collide with inputs, and failed commands do not alter their inputs.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'any command, output/variable specification, pre-existing files, answers to the prompt, environment settings, and failures at any stage',
     'Tests mock the file check and one answer.',
     ['cis/parse.py', 'cis/cis_main.py', 'cis/data_io/write_netcdf.py', 'cis/data_io/gridded_data.py'],
     [('_file_already_exists_and_no_overwrite / validate_output', 'cis/parse.py')],
     ['file system before and after running the command'])

prop('C23', 'Command lines are parsed into exactly the request they express',
     'Datagroup, limit, grid, kernel and option strings on the command line are decomposed so that every file, variable, alias, option, number, date and '
     'bracketed list arrives unchanged in the request, whatever their order, count or use of separators within brackets and quotes. '
     'Malformed or unknown input is rejected with an error before any processing takes place.',
     ['inputs', 'programs'],
     'any syntactically valid command generated from the documented grammar, and mutations of it',
     'Tests parse a few dozen literal strings.',
     ['cis/parse.py', 'cis/utils.py'],
     [('parse_args and get_* helpers', 'cis/parse.py'), ('parse_key_val_string, split helpers', 'cis/utils.py')],
     ['parsed namespace'])

prop('C24', 'Points with missing coordinates are dropped and views stay aligned',
     'When coordinates have missing values the affected points (and only those) are dropped from the data and from every coordinate together. All views of '
     'a data object - arrays, point iteration, indexing, table conversion, slices, flattened copies - agree on the value, mask and position of every '
     'point, before and after the object is modified.',
     ['inputs', 'histories'],
     'any shape, masks on data and on any coordinates (including NaN and fill values), any order of accessing views and modifying data',
     'Tests look at each view once on a fresh object.',
     ['cis/data_io/ungridded_data.py', 'cis/data_io/hyperpoint_view.py', 'cis/data_io/hyperpoint.py', 'cis/data_io/Coord.py', 'cis/data_io/gridded_data.py'],
     [('_fix_missing / LazyData._post_process', 'cis/data_io/ungridded_data.py'), ('hyperpoint views', 'cis/data_io/hyperpoint_view.py')],
     ['all public views of data objects'])

prop('C25', 'Plots show exactly the data they are given',
     'Each plot type draws exactly the data: line and scatter plots show every non-missing (x, y) pair, coloured maps and heatmaps put each value at its '
     'own coordinates, histograms count every valid value once, comparative plots pair values of the same point, and Taylor diagrams show the true '
     'correlation, standard deviation ratio and bias. Axis labels, time axes, limits and logarithmic scaling match the request.',
     ['inputs', 'configurations'],
     'any small gridded/ungridded data with masks and dimension orders, every plot type and axis assignment, explicit limits, bins and steps',
     'Plot tests mainly check that plotting does not fail or mock the axes; the image integration tests do not run.',
     ['cis/plotting', 'cis/utils.py'],
     [('plot types', 'cis/plotting/*.py'), ('apply_axis_limits', 'cis/plotting/formatted_plot.py')],
     ['artists on the matplotlib axes'])

prop('C26', 'The right reader and every installed plugin is found',
     'The reader chosen for a file is the highest-priority one whose file-name signature and content check accept that file, independent of discovery '
     'order, and an explicitly named product is always used. Every concrete plugin class in every plugin file is discoverable, abstract classes and '
     'broken plugin files never hide others, and asking for an unknown product or plugin is an error.',
     ['inputs', 'configurations', 'histories'],
     'any set of plugin files/classes with arbitrary signatures, priorities and acceptance results, any file name, several plugin directories',
     'Tests look up one or two built-in classes; only one plugin file is ever present.',
     ['cis/plugin.py', 'cis/data_io/products/AProduct.py'],
     [('find_plugin_classes / find_plugin_files', 'cis/plugin.py'), ('product selection', 'cis/data_io/products/AProduct.py')],
     ['classes found', 'product selected'])

prop('C27', 'Running a command gives the same result as the library operation',
     'Running collocate, aggregate, collapse, subset, evaluate, stats or info from the command line produces an output file or report holding the same '
     'data as applying the corresponding library operations to the same files, for every datagroup and variable given. Requested options, names and kernels are all '
     'applied, the history attribute records the command, and a failing command exits with an error rather than success.',
     ['inputs', 'configurations', 'histories'],
     'any generated small input files, commands and options, several datagroups/variables, run repeatedly in one process',
     'End-to-end tests need a private data archive and do not run; unit tests mock the processing.',
     ['cis/cis_main.py', 'cis/parse.py', 'cis/data_io/data_writer.py', 'cis/info.py'],
     [('*_cmd functions', 'cis/cis_main.py')],
     ['output files, standard output and exit status'])

prop('C28', 'Lists of variables and iris operations keep CIS data and treat variables alike',
     'Whatever is done to a list of variables (subset, aggregate, collapse, collocate, change of longitudes, iris operations, saving, copying) gives what '
     'doing it to each variable alone gives, in the same order. Indexing, slicing, joining and copying lists, and the iris operations on gridded data, keep '
     'the CIS classes and equal the plain operation in values, missing points, coordinates and names; data of another kind or shape cannot be put in a list.',
     ['inputs', 'histories'],
     'any number of variables, dimensions, missing points, names, attributes and arguments; any sequence of list operations',
     'Tests use one list operation on one or two fixed variables and compare a few values.',
     ['cis/data_io/common_data.py', 'cis/data_io/gridded_data.py', 'cis/data_io/ungridded_data.py'],
     [('CommonDataList', 'cis/data_io/common_data.py'), ('GriddedData / GriddedDataList', 'cis/data_io/gridded_data.py'),
      ('UngriddedDataList', 'cis/data_io/ungridded_data.py')],
     ['lists and data objects returned, files saved'])

prop('C29', 'User-written kernels and constraints see exactly the right points',
     'A kernel or constraint written to the documented plug-in interface works in collocation (box, bin, onto points or grids) and aggregation: it '
     'is called once per sample point (unless missing samples are to be skipped), with that point and exactly the valid data points selected for it, at '
     'their positions and with their values. All values it returns appear at that point in the outputs it named; where it raises ValueError or returns NaN '
     'the output is missing. This holds for every variable of a list.',
     ['inputs', 'configurations'],
     'any sample geometry and order of coordinates, kernel class (points or values only), number of outputs, missing samples and data, constraint class',
     'Tests use the built-in kernels, and check a few values of the result rather than what the kernel was given.',
     ['cis/collocation/col_framework.py', 'cis/collocation/col_implementations.py', 'cis/collocation/data_index.py', 'cis/data_io/hyperpoint_view.py'],
     [('Kernel / AbstractDataOnlyKernel / Constraint', 'cis/collocation/col_framework.py'),
      ('GeneralUngriddedCollocator / GeneralGriddedCollocator', 'cis/collocation/col_implementations.py')],
     ['arguments of the calls of the plug-ins', 'collocated and aggregated data'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
