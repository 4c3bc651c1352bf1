import json
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=list(over),text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=list(observe),hook_needed=None)))
p("C01","Calendar dates and time offsets convert back and forth without loss",
  "On every calendar (standard, 365-day, 360-day and year-less), turning a whole-second offset into a date always gives a valid calendar date (month and day within the length that month really has, time of day in range), and turning that date back with the same reference date returns exactly the original offset. Starting from any valid date instead, converting to an offset and back returns the same date, including before the reference date and across leap and century years.",
  "every reference date, every offset or date within +-100000 years, positive and negative, arrays of any length",
  "the tests convert a few dozen dates, almost all after the reference date; the arithmetic has separate branches for negative offsets, century leap years and year/month boundaries",
  ["pygeode/timeaxis.c","pygeode/timeaxis.py"],
  [("C kernels converting seconds to dates and back, per calendar","pygeode/timeaxis.c"),("val_as_date/date_as_val unit scaling","pygeode/timeaxis.py:CalendarTime")],
  observe=["CalendarTime.val_as_date","CalendarTime.date_as_val"])
p("C02","Time offsets measure true elapsed calendar time",
  "The offset of a date relative to a reference date equals the number of seconds that elapse between them on that calendar: 365/366-day Gregorian years with the 4/100/400 rule on the standard calendar, 365-day and 360-day years on the model calendars. Consequently a later date always has a larger offset, and re-basing to another reference date shifts every offset by the same amount.",
  "all pairs of dates and reference dates within +-100000 years, any array length, month numbers outside 1..12 on the standard and 365-day calendars being carried into the year",
  "an off-by-one in a leap rule or a month table shows only for particular years/months; tests compare a handful of dates",
  ["pygeode/timeaxis.c","pygeode/timeaxis.py"],
  [("day counting and month tables","pygeode/timeaxis.c"),("reltime / unit factors","pygeode/timeaxis.py")],
  observe=["CalendarTime.date_as_val","timeutils.reltime"])
p("C03","Time axes are matched on exactly equal dates",
  "When two ordered time axes are compared field by field, a requested time is found if and only if an entry with exactly the same field values exists, and the position returned really holds those values; the map between two axes lists only pairs whose fields are all equal, in increasing order, and misses no time present in both. Reducing an ordered time axis to distinct times keeps one entry for each distinct time and nothing else.",
  "all lexicographically ordered integer date tables of any length, any number of fields",
  "binary search and merge loops over arrays of arbitrary length; tests use a few axes with long common runs",
  ["pygeode/timeaxis.c","pygeode/timeaxis.py"],
  [("binary search, unique, merge of field tuples","pygeode/timeaxis.c:get_index,get_indices,uniquify,common_map"),("Time.map_to, Time.common_map","pygeode/timeaxis.py")],
  observe=["Time.map_to","Time.common_map","timeutils.modify(uniquify=True)"])
p("C04","Coordinates are matched to the nearest value within tolerance",
  "Looking up coordinate values of one axis in another gives, for each requested value in the order requested, a position whose coordinate is the closest available one provided it lies within the relative tolerance, and reports no match otherwise; neither array has to be sorted. No requested value that has an acceptable match is dropped and no position outside the array is ever returned.",
  "all pairs of finite coordinate arrays of any length and order, any non-negative tolerance",
  "sorting with index tracking followed by a merge: every interleaving of the two value sets is a different run; tests sample regular grids",
  ["pygeode/tools.c","pygeode/tools.py","pygeode/axis.py"],
  [("merge sort with index tracking, nearest-value merge","pygeode/tools.c:sort,msort,map_to"),("Axis.map_to","pygeode/axis.py")],
  observe=["tools.map_to","Axis.map_to"])
p("C05","Binned sums count every sample exactly once, in its own bin",
  "Accumulating data into bins adds each sample to the total of exactly the bin it is assigned to and increments that bin's count by one, at every position along the other dimensions; the missing-value-aware version leaves totals and counts untouched for missing samples, and no other bin changes. The result does not depend on how the data is split into successive calls.",
  "all array shapes, bin assignments and data, for every supported number type",
  "triple-nested pointer arithmetic over arbitrary shapes; tests use one or two shapes",
  ["pygeode/tools.c","pygeode/tools.py"],
  [("partial-sum kernels","pygeode/tools.c:PARTIAL_SUM,PARTIAL_NAN_SUM"),("reshaping and dtype dispatch","pygeode/tools.py:partial_sum,partial_nan_sum")],
  observe=["tools.partial_sum","tools.partial_nan_sum"])
p("C06","Interpolation uses the valid samples only and extrapolates as requested",
  "Interpolating a column uses exactly its samples with finite coordinate and value, in increasing coordinate order whichever way the input runs; targets outside the range of those samples get the end value plus the requested slope times the distance, and columns with too few valid samples give missing values everywhere. Each column is handled independently of the others and no memory outside the arrays supplied is touched.",
  "all column counts and lengths, ascending or descending coordinates, any pattern of missing samples, shared or per-column coordinates",
  "patterns of missing values and per-column coordinates are combinatorial; tests interpolate a few smooth fields",
  ["pygeode/interp.c","pygeode/interp.py"],
  [("column loop around the GSL interpolator","pygeode/interp.c:interpgsl")],
  observe=["interp.interpolate"])
p("V01","Index selections keep exactly the positions asked for",
  "Turning a slice, single index or index list into explicit positions gives the positions Python would select from a sequence of that length; compressing positions back into a slice, or splitting them into contiguous runs, selects the same positions in the same order with nothing lost, repeated or added.",
  "all slices (negative, missing or out-of-phase bounds, either direction) and non-negative index lists of any length",
  "the space of start/stop/step combinations and index patterns is unbounded; tests fix one axis length",
  ["pygeode/view.py"],
  [("expand / simplify / contiguate","pygeode/view.py"),("loop_contiguous","pygeode/view.py:View.loop_contiguous")],
  observe=["view.expand","view.simplify","view.contiguate","View.loop_contiguous"])
p("V02","Large requests are split into pieces that cover every element once",
  "Splitting a request into memory-sized pieces visits every requested element exactly once, in order, and no piece holds more elements than the configured limit unless axes were explicitly asked to be kept whole. Each piece is reported together with the place in the output it belongs to.",
  "all shapes, selections, memory limits of at least one element and sets of axes kept whole",
  "the default limit is far larger than anything the tests read, so the splitting code runs with one piece only",
  ["pygeode/view.py","pygeode/tools.py"],
  [("chunk iteration","pygeode/view.py:View.loop_mem"),("paired input/output loop","pygeode/tools.py:loopover")],
  observe=["View.loop_mem","tools.loopover"])
p("V03","Reading a selection returns the element stored at each selected position",
  "Reading a variable through any selection (slices in either direction, repeated or unordered index lists, any nesting of selections, axes given in any order) returns at each output position the element stored at the corresponding input position. Reading in pieces or all at once gives the same data.",
  "all variables, selections and nestings of selections",
  "the number of selection combinations is unbounded and 274 of the existing slicing tests fail outright on current numpy",
  ["pygeode/view.py","pygeode/var.py","pygeode/varoperations.py"],
  [("mapping a selection onto a variable, removing and restoring duplicates","pygeode/view.py:View.get,View.map_to"),("lazy slicing","pygeode/varoperations.py:SlicedVar")],
  observe=["Var.__getitem__","Var.slice","Var.get"])
p("V04","Rearranging a variable moves every value with its coordinates",
  "Transposing, sorting, squeezing, extending, renaming or replacing axes changes only the layout: the value found at given coordinates afterwards is the value that was there before, for the whole variable and for any later selection of it.",
  "all variables, axis orders, sort directions and selections",
  "layout bugs appear only for particular combinations of rearrangement and selection",
  ["pygeode/varoperations.py","pygeode/axis.py"],
  [("layout wrappers","pygeode/varoperations.py:TransposedVar,SortedVar,SqueezedVar,ExtendedVar,Replace_axes,RenamedVar"),("axis sorting","pygeode/axis.py:argsort,sorted")],
  observe=["Var.transpose","Var.sorted","Var.squeeze","Var.extend","Var.replace_axes","Var.rename"])
p("V05","Concatenation is lossless and keeps order",
  "Concatenating variables along an axis gives a variable whose axis is the segments' axes in order, and whose value at each position is the value of the segment that position came from; any selection of the result returns the same elements as selecting from the fully joined data.",
  "all numbers and lengths of segments with disjoint coordinates and all selections, including ones that skip, reverse or interleave segments",
  "tests join two or three segments and read them whole",
  ["pygeode/concat.py","pygeode/axis.py"],
  [("per-segment mapping","pygeode/concat.py:ConcatVar.getview"),("axis concatenation","pygeode/axis.py:concat")],
  observe=["concat"])
p("V06","Differences and lags commute with selection",
  "The n-th forward difference along an axis has at each position the n-th difference of the consecutive source values starting there, and a lagged variable has the source value the requested number of steps away or missing when that falls off the axis; both hold for any selection of the result, in any order and with repetitions.",
  "all variables, axes, orders n, lags and selections",
  "tests difference whole small arrays; the code rebuilds the stencil for each selection",
  ["pygeode/diff.py","pygeode/timeutils.py"],
  [("stencil union and remapping","pygeode/diff.py:ForwardDifferenceVar.getview"),("lag","pygeode/timeutils.py:LagVar")],
  observe=["diff","lag"])
p("V08","Reductions do not depend on how the data is chunked",
  "Sums, means, variances, extrema and their positions over any set of axes equal the value computed from all the data at once, up to rounding, whatever the memory limit used to split the data; missing-value-aware forms use exactly the non-missing samples, and weighted forms weight each sample by its own weight.",
  "all variables, axis subsets, missing-value patterns, weights and memory limits",
  "with the default limit no test ever splits a reduction, so accumulation across pieces is never exercised",
  ["pygeode/reduce.py","pygeode/tools.py"],
  [("accumulation over chunks","pygeode/reduce.py"),("chunk loop","pygeode/tools.py:loopover")],
  observe=["Var.sum","Var.mean","Var.variance","Var.min","Var.argmax"])
p("V09","Arithmetic between variables pairs values with equal coordinates",
  "Combining variables elementwise yields a variable whose axes are the union of the operands' axes, each appearing once, and whose value at any coordinates is the operation applied to the operands' values at those same coordinates, whatever order the operands list their axes in.",
  "all operand axis sets and orders, all elementwise operations, all selections",
  "tests combine operands that already share an axis order",
  ["pygeode/tools.py","pygeode/ufunc.py"],
  [("axis union","pygeode/tools.py:combine_axes"),("broadcasting elementwise wrapper","pygeode/ufunc.py")],
  observe=["Var.__add__","Var.__mul__","ufunc wrappers"])
p("V10","Time aggregation uses exactly the samples of each period",
  "Climatologies and daily, monthly, yearly and seasonal aggregates give for each output time the aggregate of exactly the input samples whose date falls in that period, on every calendar; the result is the same for any selection of the output and any memory limit.",
  "all time axes, calendars, periods, selections and memory limits",
  "tests check a few aggregates of whole regular axes that fit into memory",
  ["pygeode/climat.py","pygeode/timeutils.py","pygeode/tools.py"],
  [("bin map and chunk loop","pygeode/climat.py:loopover"),("period construction","pygeode/timeutils.py:modify"),("aggregators","pygeode/climat.py:Mean,Stdev,NANMean,Count")],
  observe=["climatology","monthlymean","dailymean","yearlymean","seasonalmean"])
p("V11","Missing-value markers, packing and fill values decode exactly",
  "Values decoded from packed storage equal stored*scale+offset, stored fill values become missing and nothing else does; packing and unpacking a field reproduces every value to within one quantisation step. Replacing missing values by a marker, and back, changes exactly the elements concerned and no others.",
  "all fields, fill values (including zero), scales and offsets",
  "tests write unpacked fields without fill values",
  ["pygeode/formats/cfmeta.py","pygeode/formats/__init__.py","pygeode/varoperations.py"],
  [("decode on read","pygeode/formats/cfmeta.py:var_newaxes"),("packing","pygeode/formats/__init__.py:PackVar"),("fill/unfill","pygeode/varoperations.py:FillVar,UnfillVar")],
  observe=["formats.open","formats.save","Var.fill","Var.unfill"])
p("V12","Time axes written with file metadata are read back as the same times",
  "Encoding any calendar time axis as units-since-reference metadata plus numbers and decoding it again gives the same calendar and the same sequence of dates, for every reference date, unit and offset.",
  "all calendars, units, reference dates with four-digit non-negative years, and offsets",
  "tests save two or three axes starting on round dates",
  ["pygeode/formats/cfmeta.py","pygeode/timeutils.py"],
  [("encode","pygeode/formats/cfmeta.py:encode_cf"),("decode","pygeode/formats/cfmeta.py:decode_cf")],
  observe=["formats.cfmeta.encode_cf","formats.cfmeta.decode_cf"])
p("V13","Auxiliary coordinates stay attached to their coordinate values",
  "Selecting from, reordering, sorting or concatenating an axis keeps every auxiliary array aligned with the coordinate values, so that the auxiliary value belonging to a coordinate before the operation still belongs to it afterwards.",
  "all axes with auxiliary arrays, all selections, sorts and concatenations",
  "tests look at coordinate values, seldom at auxiliary arrays after a sequence of operations",
  ["pygeode/axis.py","pygeode/timeaxis.py"],
  [("axis slicing and construction","pygeode/axis.py:AxisSlicer,withnewvalues,concat,sorted"),("time fields","pygeode/timeaxis.py")],
  observe=["Axis.slice","Axis.sorted","axis.concat"])
p("V14","Keyword selection keeps exactly the coordinates that satisfy the request",
  "Selecting by value range keeps exactly the coordinates inside the closed range, selecting a single value keeps the nearest coordinate, selecting by list keeps the nearest coordinate of each entry (on integer axes: the equal coordinate), and index-prefixed selection acts on positions; a negated selection keeps exactly the complement, and the order of the axis is preserved for ranges.",
  "all axes (increasing, decreasing or unordered) and all requests",
  "tests select from a few regular grids with values well inside the axis",
  ["pygeode/axis.py","pygeode/var.py"],
  [("selection rules","pygeode/axis.py:Axis.get_slice"),("keyword handling","pygeode/var.py:Var.__call__")],
  observe=["Var.__call__","Axis.get_slice"])
p("V15","Axis equality is a genuine equivalence on coordinates",
  "Comparing axes is reflexive and symmetric, never reports axes of different kind, length or coordinate values as equal, and always reports an axis equal to an exact copy of itself.",
  "all pairs of axes, including empty, single-valued, decreasing and time axes",
  "tests compare a few axes; an asymmetric or order-dependent comparison needs particular pairs",
  ["pygeode/axis.py","pygeode/timeaxis.py"],
  [("equality","pygeode/axis.py:Axis.__eq__"),("time equality","pygeode/timeaxis.py:Time.__eq__"),("is_equivalent","pygeode/axis.py")],
  observe=["Axis.__eq__","axis.is_equivalent"])
p("V16","Smoothing, integrals and derivatives follow their definition for any selection",
  "Smoothing convolves the source with the normalised kernel using mirrored ends, and cumulative integration from either end adds trapezoid (or weighted rectangle) contributions between neighbouring coordinates, and differentiation divides differences of the source by the matching differences of the coordinates; evaluating any selection gives the same numbers as evaluating everything and selecting afterwards, and the caller's inputs are left unchanged.",
  "all variables, kernels, directions and selections",
  "selection-dependent boundary handling is only exercised on whole arrays",
  ["pygeode/smooth.py","pygeode/intgr.py","pygeode/deriv.py"],
  [("mirrored convolution","pygeode/smooth.py:SmoothVar.getview"),("integration","pygeode/intgr.py:IntegrateVar.getview")],
  observe=["smooth","integrate","deriv"])
p("V17","Multi-file reading returns each time step from the file that holds it",
  "A variable assembled from many files returns, for any selection of times in any order, the data stored for exactly those times, reading only files that hold requested times, and raises an error instead of returning data when a requested time is not in the file expected to hold it.",
  "all splits of a time axis into files, all selections",
  "tests open a couple of complete file sets and read them whole",
  ["pygeode/formats/multifile.py"],
  [("time-to-file mapping","pygeode/formats/multifile.py:Multifile_Var.getview")],
  observe=["formats.open_multi","formats.openall"],over=("inputs","configurations"))
p("V18","Principal components and singular vectors are orthogonal and optimal",
  "Empirical orthogonal functions and singular vectors returned are orthonormal under the area weights, ordered by the variance they explain, and reconstruct the input when all are kept.",
  "all data matrices",
  "floating-point iterative algorithms on arbitrary matrices; tests compare two synthetic cases",
  ["pygeode/eof.py","pygeode/eof.c","pygeode/svd.py","pygeode/svd.c"],
  [("iterative power/orthogonalisation","pygeode/eof.c"),("svd iteration","pygeode/svd.c")],
  observe=["EOF","SVD"])
p("V19","Remote and archived binary records decode to the numbers stored",
  "Reading a GRIB file returns, for every variable, time, level and grid point, the reference value plus the scaled packed integer of the record that holds it, on axes with the dates, levels and grid of the records; converting arrays to and from byte strings in network order (the data part of the OPeNDAP protocol) preserves every value bit for bit.",
  "all GRIB edition 1 files of simply packed grid-point records on regular or gaussian grids (no bit maps; at most 255 variables, times and levels), and all arrays and byte strings",
  "no test reads either format",
  ["pygeode/formats/grib.c","pygeode/formats/grib.py","pygeode/formats/opendap.c"],
  [("byte order conversion","pygeode/formats/opendap.c"),("record decoding","pygeode/formats/grib.c:read_data,make_index,read_Index"),("axes of a GRIB variable","pygeode/formats/grib.py:GribVar")],
  observe=["formats.grib.open","opendapcore.str2*","opendapcore.*toStr"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
