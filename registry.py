"""Which contracts and which contract-evaluation module decide each property."""
PROPS = {
    'C01': dict(proofs=['calendars:C01'], falsify='f_c01', level='proof',
                note='Every obligation of the contracts of ndays, date_as_val_* and val_as_date_* (valid date, exact offset, no overflow, in-bounds, asserts) plus the round-trip lemmas is discharged for all inputs in range on every run; Python wrappers of the kernels are evaluated on generated inputs only (bounded).'),
    'C02': dict(proofs=['calendars:C02'], falsify='f_c02', level='proof',
                note='Contracts of ndays and the four date_as_val kernels against an arithmetic calendar, with monotonicity and re-basing lemmas, discharged for all inputs in range; Python wrappers evaluated on generated inputs only (bounded).'),
}
PROPS['C03'] = dict(proofs=['timematch:C03'], falsify='f_c03', level='proof', note='Contracts of get_index, get_indices, uniquify, cmpval and common_map discharged for all field counts, lengths and values; the Python callers (sorting, field selection) are evaluated on generated inputs only (bounded).')
PROPS['C05'] = dict(proofs=['tools:C05'], falsify='f_c05', level='proof', note='Contracts of all ten partial_sum / partial_nan_sum kernels (float, double, complex, int, long long) discharged for all sizes, bin numbers and values; the Python callers (bin assignment, chunking, normalisation) are evaluated on generated inputs only (bounded).')
PROPS['C04'] = dict(proofs=['tools:C04'], falsify='f_c04', level='proof', note='Contracts of msort, sort and map_to (tools.c) discharged for all array lengths, values and tolerances (doubles as reals, sizes below 2^30); Axis.map_to and the callers in axis.py and view.py are evaluated on generated inputs only (bounded).')
PROPS['C06'] = dict(proofs=['interp_:C06'], falsify='f_c06', level='proof', note='Contract of interpgsl (which samples are used and in what order, extrapolation, missing values, bounds, every allocation freed) discharged for all array counts, lengths, coordinates, values and patterns of missing samples; the GSL functions are contracts, the Python caller (interp.py) is evaluated on generated inputs only (bounded).')
PROPS['V01'] = dict(proofs=['views:V01'], falsify='f_v01', level='proof', note='Contracts of expand (slice, integer, list), simplify and contiguate discharged for every length, position and step; View.loop_contiguous for 1 and 2 axes (bounded in the number of axes only).')
PROPS['V02'] = dict(proofs=['views:V02', 'chunks:V02'], falsify='f_v02', level='exploration', note='Contract of View.loop_mem discharged for every extent, position list and memory limit with 1 to 4 axes, and of loopover (pairing, coverage, no overlap) for one and two variables (bounded in the number of axes only); callers are evaluated on generated inputs (bounded).')
NOT_APPLICABLE = {
    'V18': 'EOF/SVD quality is a statement about iterative floating-point linear algebra (LAPACK, power iteration with random starts); no contract in reach of an SMT back end can express convergence to orthonormal optimal vectors',
}
for _p in ('V03', 'V04', 'V05', 'V06', 'V08', 'V09', 'V10', 'V11', 'V12', 'V13', 'V14', 'V15', 'V16', 'V17', 'V19'):
    PROPS[_p] = dict(falsify='f_' + _p.lower(), level='exploration', note='')
PROPS['V03'].update(proofs=['read:V03', 'vars_:V03'], note='View.get (with map_to and the View constructor) discharged for every selection, extent and value, for 1 to 3 axes, and SlicedVar for 2; the remaining readers (chunked loading, file formats) are evaluated on generated inputs (bounded).')
PROPS['V04'].update(proofs=['vars_:V04'], note='Contracts of transpose, sorted, rename, squeeze, extend and replace_axes discharged for every extent, selection and value, for the numbers of axes named (bounded); the rest is evaluated on generated inputs (bounded).')
PROPS['V06'].update(proofs=['vars_:V06'], note='Contract of ForwardDifferenceVar discharged for every extent, selection and value, 1 to 3 axes and orders 1 to 3 (bounded); and of LagVar for every lag list, with 1 to 3 axes; the time-axis objects themselves are evaluated on generated inputs (bounded).')
PROPS['V09'].update(proofs=['vars_:V09'], note='Contracts of UfuncVar, combine_axes and combine_meta discharged for every operation, extent, selection and value, for the operand layouts named (bounded); sub-selected axes are evaluated on generated inputs (bounded).')
PROPS['V16'].update(proofs=['numeric:V16'], note='Contracts of DerivativeVar, SecondDerivativeVar and IntegrateVar discharged for every extent, selection, coordinate and value, and of SmoothVar, 1 to 3 axes (bounded in the number of axes).')
PROPS['V08'].update(proofs=['reductions:V08'], note='min, max, sum, mean, variance, stdev, their nan-aware and weighted forms and argmin/argmax discharged for every extent, selection, splitting into blocks and value (the public functions, through the classes to the block loop; 1 to 3 axes, bounded in the number of axes); default weights and axis order of weights are evaluated on generated inputs (bounded).')
PROPS['V11'].update(proofs=['vars_:V11', 'packing:V11'], note='Contracts of fill, unfill and as_type discharged for every extent, selection, value and marker (1 to 3 axes) with the round-trip lemma; packing (PackVar) and decoding (var_newaxes) discharged for every extent, value, scale, offset and up to 3 fill values, with the half-step round trip; the file readers are evaluated on generated inputs (bounded).')
PROPS['V05'].update(proofs=['concat:V05'], note='ConcatVar (finding the axis, joining, reading) discharged for every extent, selection and value, for 2 and 3 segments of 1 to 3 axes (bounded in the numbers of segments and axes); axis.concat and the order in which selections are read are evaluated on generated inputs (bounded).')
PROPS['V13'].update(proofs=['axes:V13'], note='Selection (any slice, position, list or mask), sorting, renaming and joining of axes discharged for every length, coordinate and auxiliary value (numbers of auxiliary arrays and of segments bounded; the constructor is a contract); text arrays, other axis kinds and data types are evaluated on generated inputs (bounded).')
PROPS['V15'].update(proofs=['axes:V15'], note='Equality of axes (is_equivalent and the methods of Axis, NamedAxis, Hybrid and NonCoordinateAxis) discharged for every length, coordinate, auxiliary value and tolerance, for the pairs of classes named (bounded); time axes and text arrays are evaluated on generated inputs (bounded).')
PROPS['V14'].update(proofs=['axes:V14'], note='Axis.get_slice discharged for every axis length, coordinate, auxiliary array and requested value or position (numbers of keywords and of entries in a list bounded); requests by string, time axes and the callers are evaluated on generated inputs (bounded).')

# ---- the trusted base of each property's proofs, reported in its evidence
C_ = ['the VC generator engine/cv.py and clang\'s AST', 'doubles are treated as reals plus a NaN flag (no rounding, no overflow to infinity)', 'integers are mathematical, with a no-overflow obligation at every signed operation', 'partial correctness: termination is not proved']
P_ = ['the VC generator engine/pv.py (lifting) and the contracts of the numpy functions in it', 'array elements are exact reals or integers plus a NaN flag (rounding, overflow and signed zero are not modelled)', 'partial correctness: termination is not proved']
A_ = ['contract of the axis objects (contracts/absvar.py): coordinates of an axis are distinct and not NaN; slicing, equality and map_to between related axes follow their contracts (the classes themselves: V13-V15, C04)']
L_ = ['loopover (contract c_loopover, proved in V02)']
S_ = ['sums over equal terms are equal, sums are additive over disjoint parts, and regrouping of folds (trusted instances in engine/pv.py)']
for _p in ('C01', 'C02', 'C03', 'C04', 'C05'):
    PROPS[_p]['trusted'] = C_
PROPS['C06']['trusted'] = C_ + ['contracts of the GSL functions (contracts/interp_.py): gsl_interp_init accepts exactly strictly increasing coordinates, the interpolant passes through its end samples, memory is available; what the interpolant is between samples is not specified']
PROPS['V19']['trusted'] = C_ + ['contracts of stdio (fread, fseeko) and of pow as an uninterpreted function', 'conversion to a narrower type and shifts are modular, as gcc defines them; rounding to float is not modelled']
PROPS['V19'].update(proofs=['records:V19'], note='Contracts of the ten byte order conversions (opendap.c), of decode_IS, decode_PDS, decode_GDS, decode_BDS, decode_float, decode_offset and of read_data (grib.c) discharged for all contents; the index (make_index, read_Index) and the axes built from it are evaluated on generated files (bounded).')
PROPS['V01']['trusted'] = PROPS['V14']['trusted'] = P_
PROPS['V13']['trusted'] = PROPS['V15']['trusted'] = P_ + ['contract of Axis.__init__ (c_axis_init in contracts/axes.py)']
for _p in ('V02', 'V03', 'V04', 'V06', 'V09', 'V11'):
    PROPS[_p]['trusted'] = P_ + A_
PROPS['V05']['trusted'] = P_ + A_ + ['the positions of an increasing selection that fall into one segment are a contiguous run of it']
PROPS['V08']['trusted'] = P_ + A_ + L_ + S_
PROPS['V16']['trusted'] = P_ + A_ + S_ + ['scipy.signal.fftconvolve computes the convolution (contract)']
