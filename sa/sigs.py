"""Parameters of the library functions modelled: those that may be positional, those that may not."""
SIGS = {
    'itertools.accumulate': ('iterable func', 'initial'),
    'itertools.combinations': ('iterable r', ''),
    'itertools.combinations_with_replacement': ('iterable r', ''),
    'itertools.compress': ('data selectors', ''),
    'itertools.count': ('start step', ''),
    'itertools.cycle': ('iterable', ''),
    'itertools.pairwise': ('iterable', ''),
    'itertools.permutations': ('iterable r', ''),
    'itertools.starmap': ('function iterable', ''),
    'math.acos': ('x', ''),
    'math.asin': ('x', ''),
    'math.atan': ('x', ''),
    'math.atan2': ('y x', ''),
    'math.ceil': ('x', ''),
    'math.cos': ('x', ''),
    'math.degrees': ('x', ''),
    'math.exp': ('x', ''),
    'math.fabs': ('x', ''),
    'math.floor': ('x', ''),
    'math.isclose': ('a b', 'rel_tol abs_tol'),
    'math.isnan': ('x', ''),
    'math.pow': ('x y', ''),
    'math.prod': ('iterable', 'start'),
    'math.radians': ('x', ''),
    'math.sin': ('x', ''),
    'math.sqrt': ('x', ''),
    'math.tan': ('x', ''),
    'math.trunc': ('x', ''),
    'numpy.all': ('a axis out keepdims', 'where'),
    'numpy.allclose': ('a b rtol atol equal_nan', ''),
    'numpy.amax': ('a axis out keepdims initial where', ''),
    'numpy.amin': ('a axis out keepdims initial where', ''),
    'numpy.any': ('a axis out keepdims', 'where'),
    'numpy.append': ('arr values axis', ''),
    'numpy.apply_along_axis': ('func1d axis arr', ''),
    'numpy.arange': ('start_or_stop stop step', 'dtype device like'),
    'numpy.argmax': ('a axis out', 'keepdims'),
    'numpy.argmin': ('a axis out', 'keepdims'),
    'numpy.argsort': ('a axis kind order', 'stable descending'),
    'numpy.argwhere': ('a', ''),
    'numpy.around': ('a decimals out', ''),
    'numpy.array': ('object dtype', 'copy order subok ndmin ndmax like'),
    'numpy.array_equal': ('a1 a2 equal_nan', ''),
    'numpy.asanyarray': ('a dtype order', 'device copy like'),
    'numpy.asarray': ('a dtype order', 'device copy like'),
    'numpy.ascontiguousarray': ('a dtype', 'like'),
    'numpy.atleast_1d': ('', ''),
    'numpy.atleast_2d': ('', ''),
    'numpy.atleast_3d': ('', ''),
    'numpy.average': ('a axis weights returned', 'keepdims'),
    'numpy.bincount': ('x weights minlength', ''),
    'numpy.block': ('arrays', ''),
    'numpy.broadcast_arrays': ('', 'subok'),
    'numpy.broadcast_shapes': ('', ''),
    'numpy.broadcast_to': ('array shape subok', ''),
    'numpy.choose': ('a choices out mode', ''),
    'numpy.clip': ('a a_min a_max out', 'min max'),
    'numpy.column_stack': ('tup', ''),
    'numpy.compress': ('condition a axis out', ''),
    'numpy.concatenate': ('arrays axis out', 'dtype casting'),
    'numpy.copy': ('a order subok', ''),
    'numpy.copyto': ('dst src casting where', ''),
    'numpy.count_nonzero': ('a axis', 'keepdims'),
    'numpy.cross': ('a b axisa axisb axisc axis', ''),
    'numpy.cumsum': ('a axis dtype out', ''),
    'numpy.delete': ('arr obj axis', ''),
    'numpy.diag': ('v k', ''),
    'numpy.diag_indices': ('n ndim', ''),
    'numpy.diagflat': ('v k', ''),
    'numpy.diagonal': ('a offset axis1 axis2', ''),
    'numpy.diff': ('a n axis prepend append', ''),
    'numpy.digitize': ('x bins right', ''),
    'numpy.dot': ('a b out', ''),
    'numpy.dstack': ('tup', ''),
    'numpy.dtype': ('dtype align copy', ''),
    'numpy.ediff1d': ('ary to_end to_begin', ''),
    'numpy.einsum': ('', 'out optimize'),
    'numpy.empty': ('shape dtype order', 'device like'),
    'numpy.empty_like': ('prototype dtype order subok shape', 'device'),
    'numpy.errstate': ('', 'call all divide over under invalid'),
    'numpy.expand_dims': ('a axis', ''),
    'numpy.extract': ('condition arr', ''),
    'numpy.eye': ('N M k dtype order', 'device like'),
    'numpy.fill_diagonal': ('a val wrap', ''),
    'numpy.finfo': ('dtype', ''),
    'numpy.fix': ('x out', ''),
    'numpy.flatnonzero': ('a', ''),
    'numpy.flip': ('m axis', ''),
    'numpy.fliplr': ('m', ''),
    'numpy.flipud': ('m', ''),
    'numpy.fromfunction': ('function shape', 'dtype like'),
    'numpy.fromiter': ('iter dtype count', 'like'),
    'numpy.full': ('shape fill_value dtype order', 'device like'),
    'numpy.full_like': ('a fill_value dtype order subok shape', 'device'),
    'numpy.genfromtxt': ('fname dtype comments delimiter skip_header skip_footer converters missing_values filling_values usecols names excludelist deletechars replace_space autostrip case_sensitive defaultfmt unpack usemask loose invalid_raise max_rows encoding', 'ndmin like'),
    'numpy.hsplit': ('ary indices_or_sections', ''),
    'numpy.hstack': ('tup', 'dtype casting'),
    'numpy.identity': ('n dtype', 'like'),
    'numpy.imag': ('val', ''),
    'numpy.indices': ('dimensions dtype sparse', ''),
    'numpy.inner': ('a b', ''),
    'numpy.insert': ('arr obj values axis', ''),
    'numpy.intersect1d': ('ar1 ar2 assume_unique return_indices', ''),
    'numpy.isclose': ('a b rtol atol equal_nan', ''),
    'numpy.iscomplexobj': ('x', ''),
    'numpy.isin': ('element test_elements assume_unique invert', 'kind'),
    'numpy.isrealobj': ('x', ''),
    'numpy.isscalar': ('element', ''),
    'numpy.ix_': ('', ''),
    'numpy.kron': ('a b', ''),
    'numpy.linalg.det': ('a', ''),
    'numpy.linalg.eig': ('a', ''),
    'numpy.linalg.eigh': ('a UPLO', ''),
    'numpy.linalg.eigvals': ('a', ''),
    'numpy.linalg.eigvalsh': ('a UPLO', ''),
    'numpy.linalg.inv': ('a', ''),
    'numpy.linalg.lstsq': ('a b rcond', ''),
    'numpy.linalg.matrix_power': ('a n', ''),
    'numpy.linalg.multi_dot': ('arrays', 'out'),
    'numpy.linalg.norm': ('x ord axis keepdims', ''),
    'numpy.linalg.pinv': ('a rcond hermitian', 'rtol'),
    'numpy.linalg.solve': ('a b', ''),
    'numpy.linspace': ('start stop num endpoint retstep dtype axis', 'device'),
    'numpy.loadtxt': ('fname dtype comments delimiter converters skiprows usecols unpack ndmin encoding max_rows', 'quotechar like'),
    'numpy.max': ('a axis out keepdims initial where', ''),
    'numpy.may_share_memory': ('a b max_work', ''),
    'numpy.mean': ('a axis dtype out keepdims', 'where'),
    'numpy.meshgrid': ('', 'copy sparse indexing'),
    'numpy.min': ('a axis out keepdims initial where', ''),
    'numpy.moveaxis': ('a source destination', ''),
    'numpy.nan_to_num': ('x copy nan posinf neginf', ''),
    'numpy.nanmax': ('a axis out keepdims initial where', ''),
    'numpy.nanmin': ('a axis out keepdims initial where', ''),
    'numpy.nansum': ('a axis dtype out keepdims initial where', ''),
    'numpy.ndenumerate': ('arr', ''),
    'numpy.ndim': ('a', ''),
    'numpy.ndindex': ('', ''),
    'numpy.nonzero': ('a', ''),
    'numpy.ones': ('shape dtype order', 'device like'),
    'numpy.ones_like': ('a dtype order subok shape', 'device'),
    'numpy.outer': ('a b out', ''),
    'numpy.pad': ('array pad_width mode', ''),
    'numpy.place': ('arr mask vals', ''),
    'numpy.polynomial.legendre.leggauss': ('deg', ''),
    'numpy.polyval': ('p x', ''),
    'numpy.prod': ('a axis dtype out keepdims initial where', ''),
    'numpy.ptp': ('a axis out keepdims', ''),
    'numpy.putmask': ('a mask values', ''),
    'numpy.ravel': ('a order', ''),
    'numpy.ravel_multi_index': ('multi_index dims mode order', ''),
    'numpy.real': ('val', ''),
    'numpy.repeat': ('a repeats axis', ''),
    'numpy.require': ('a dtype requirements', 'like'),
    'numpy.reshape': ('a shape order', 'copy'),
    'numpy.result_type': ('', ''),
    'numpy.roll': ('a shift axis', ''),
    'numpy.rollaxis': ('a axis start', ''),
    'numpy.rot90': ('m k axes', ''),
    'numpy.round': ('a decimals out', ''),
    'numpy.savetxt': ('fname X fmt delimiter newline header footer comments encoding', ''),
    'numpy.searchsorted': ('a v side sorter', ''),
    'numpy.select': ('condlist choicelist default', ''),
    'numpy.set_printoptions': ('precision threshold edgeitems linewidth suppress nanstr infstr formatter sign floatmode', 'legacy override_repr'),
    'numpy.setdiff1d': ('ar1 ar2 assume_unique', ''),
    'numpy.seterr': ('all divide over under invalid', ''),
    'numpy.setxor1d': ('ar1 ar2 assume_unique', ''),
    'numpy.shape': ('a', ''),
    'numpy.size': ('a axis', ''),
    'numpy.sort': ('a axis kind order', 'stable descending'),
    'numpy.split': ('ary indices_or_sections axis', ''),
    'numpy.squeeze': ('a axis', ''),
    'numpy.stack': ('arrays axis out', 'dtype casting'),
    'numpy.std': ('a axis dtype out ddof keepdims', 'where mean correction'),
    'numpy.sum': ('a axis dtype out keepdims initial where', ''),
    'numpy.swapaxes': ('a axis1 axis2', ''),
    'numpy.take': ('a indices axis out mode', ''),
    'numpy.take_along_axis': ('arr indices axis', ''),
    'numpy.tensordot': ('a b axes', ''),
    'numpy.tile': ('A reps', ''),
    'numpy.trace': ('a offset axis1 axis2 dtype out', ''),
    'numpy.transpose': ('a axes', ''),
    'numpy.tri': ('N M k dtype', 'like'),
    'numpy.tril': ('m k', ''),
    'numpy.tril_indices': ('n k m', ''),
    'numpy.triu': ('m k', ''),
    'numpy.triu_indices': ('n k m', ''),
    'numpy.union1d': ('ar1 ar2', ''),
    'numpy.unique': ('ar return_index return_inverse return_counts axis', 'equal_nan sorted'),
    'numpy.unravel_index': ('indices shape order', ''),
    'numpy.vander': ('x N increasing', ''),
    'numpy.var': ('a axis dtype out ddof keepdims', 'where mean correction'),
    'numpy.vdot': ('a b', ''),
    'numpy.vectorize': ('pyfunc otypes doc excluded cache signature', ''),
    'numpy.vsplit': ('ary indices_or_sections', ''),
    'numpy.vstack': ('tup', 'dtype casting'),
    'numpy.where': ('condition x y', ''),
    'numpy.zeros': ('shape dtype order', 'device like'),
    'numpy.zeros_like': ('a dtype order subok shape', 'device'),
    'scipy.linalg.det': ('a overwrite_a check_finite', ''),
    'scipy.linalg.eig': ('a b left right overwrite_a overwrite_b check_finite homogeneous_eigvals', ''),
    'scipy.linalg.eigh': ('a b', 'lower eigvals_only overwrite_a overwrite_b type check_finite subset_by_index subset_by_value driver'),
    'scipy.linalg.eigvals': ('a b overwrite_a overwrite_b check_finite homogeneous_eigvals', ''),
    'scipy.linalg.eigvalsh': ('a b', 'lower overwrite_a overwrite_b type check_finite subset_by_index subset_by_value driver'),
    'scipy.linalg.inv': ('a overwrite_a check_finite', 'assume_a lower'),
    'scipy.linalg.lstsq': ('a b cond overwrite_a overwrite_b check_finite lapack_driver', ''),
    'scipy.linalg.lu_factor': ('a overwrite_a check_finite', ''),
    'scipy.linalg.lu_solve': ('lu_and_piv b trans overwrite_b check_finite', ''),
    'scipy.linalg.norm': ('a ord axis keepdims check_finite', ''),
    'scipy.linalg.pinv': ('a', 'atol rtol return_rank check_finite'),
    'scipy.linalg.solve': ('a b lower overwrite_a overwrite_b check_finite assume_a transposed', ''),
    'scipy.sparse.bsr_array': ('arg1 shape dtype copy blocksize', 'maxprint'),
    'scipy.sparse.bsr_matrix': ('arg1 shape dtype copy blocksize', 'maxprint'),
    'scipy.sparse.coo_array': ('arg1 shape dtype copy', 'maxprint'),
    'scipy.sparse.coo_matrix': ('arg1 shape dtype copy', 'maxprint'),
    'scipy.sparse.csc_array': ('arg1 shape dtype copy', 'maxprint'),
    'scipy.sparse.csc_matrix': ('arg1 shape dtype copy', 'maxprint'),
    'scipy.sparse.csr_array': ('arg1 shape dtype copy', 'maxprint'),
    'scipy.sparse.csr_matrix': ('arg1 shape dtype copy', 'maxprint'),
    'scipy.sparse.dok_array': ('arg1 shape dtype copy', 'maxprint'),
    'scipy.sparse.dok_matrix': ('arg1 shape dtype copy', 'maxprint'),
    'scipy.sparse.eye': ('m n k dtype format', ''),
    'scipy.sparse.identity': ('n dtype format', ''),
    'scipy.sparse.issparse': ('x', ''),
    'scipy.sparse.isspmatrix': ('x', ''),
    'scipy.sparse.isspmatrix_coo': ('x', ''),
    'scipy.sparse.isspmatrix_csc': ('x', ''),
    'scipy.sparse.isspmatrix_csr': ('x', ''),
    'scipy.sparse.isspmatrix_lil': ('x', ''),
    'scipy.sparse.lil_array': ('arg1 shape dtype copy', 'maxprint'),
    'scipy.sparse.lil_matrix': ('arg1 shape dtype copy', 'maxprint'),
    'scipy.sparse.linalg.bicg': ('A b x0', 'rtol atol maxiter M callback'),
    'scipy.sparse.linalg.bicgstab': ('A b x0', 'rtol atol maxiter M callback'),
    'scipy.sparse.linalg.cg': ('A b x0', 'rtol atol maxiter M callback'),
    'scipy.sparse.linalg.cgs': ('A b x0', 'rtol atol maxiter M callback'),
    'scipy.sparse.linalg.factorized': ('A', ''),
    'scipy.sparse.linalg.gmres': ('A b x0', 'rtol atol restart maxiter M callback callback_type'),
    'scipy.sparse.linalg.lgmres': ('A b x0', 'rtol atol maxiter M callback inner_m outer_k outer_v store_outer_Av prepend_outer_v'),
    'scipy.sparse.linalg.minres': ('A b x0', 'rtol shift maxiter M callback show check'),
    'scipy.sparse.linalg.qmr': ('A b x0', 'rtol atol maxiter M1 M2 callback'),
    'scipy.sparse.linalg.splu': ('A permc_spec diag_pivot_thresh relax panel_size options', ''),
    'scipy.sparse.linalg.spsolve': ('A b permc_spec use_umfpack', ''),
}
