"""attribute names of the types of Python, numpy and pandas (generated by dir(), not by the checks)"""
ATTRS = {
    'list': frozenset('__add__ __class__ __class_getitem__ __contains__ __delattr__ __delitem__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __iadd__ __imul__ __init__ __init_subclass__ __iter__ __le__ __len__ __lt__ __mul__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __reversed__ __rmul__ __setattr__ __setitem__ __sizeof__ __str__ __subclasshook__ append clear copy count extend index insert pop remove reverse sort'.split()),
    'dict': frozenset('__class__ __class_getitem__ __contains__ __delattr__ __delitem__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __ior__ __iter__ __le__ __len__ __lt__ __ne__ __new__ __or__ __reduce__ __reduce_ex__ __repr__ __reversed__ __ror__ __setattr__ __setitem__ __sizeof__ __str__ __subclasshook__ clear copy fromkeys get items keys pop popitem setdefault update values'.split()),
    'set': frozenset('__and__ __class__ __class_getitem__ __contains__ __delattr__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __iand__ __init__ __init_subclass__ __ior__ __isub__ __iter__ __ixor__ __le__ __len__ __lt__ __ne__ __new__ __or__ __rand__ __reduce__ __reduce_ex__ __repr__ __ror__ __rsub__ __rxor__ __setattr__ __sizeof__ __str__ __sub__ __subclasshook__ __xor__ add clear copy difference difference_update discard intersection intersection_update isdisjoint issubset issuperset pop remove symmetric_difference symmetric_difference_update union update'.split()),
    'tuple': frozenset('__add__ __class__ __class_getitem__ __contains__ __delattr__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getitem__ __getnewargs__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __iter__ __le__ __len__ __lt__ __mul__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __rmul__ __setattr__ __sizeof__ __str__ __subclasshook__ count index'.split()),
    'str': frozenset('__add__ __class__ __contains__ __delattr__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getitem__ __getnewargs__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __iter__ __le__ __len__ __lt__ __mod__ __mul__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __rmod__ __rmul__ __setattr__ __sizeof__ __str__ __subclasshook__ capitalize casefold center count encode endswith expandtabs find format format_map index isalnum isalpha isascii isdecimal isdigit isidentifier islower isnumeric isprintable isspace istitle isupper join ljust lower lstrip maketrans partition removeprefix removesuffix replace rfind rindex rjust rpartition rsplit rstrip split splitlines startswith strip swapcase title translate upper zfill'.split()),
    'int': frozenset('__abs__ __add__ __and__ __bool__ __ceil__ __class__ __delattr__ __dir__ __divmod__ __doc__ __eq__ __float__ __floor__ __floordiv__ __format__ __ge__ __getattribute__ __getnewargs__ __getstate__ __gt__ __hash__ __index__ __init__ __init_subclass__ __int__ __invert__ __le__ __lshift__ __lt__ __mod__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmod__ __rmul__ __ror__ __round__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __trunc__ __xor__ as_integer_ratio bit_count bit_length conjugate denominator from_bytes imag is_integer numerator real to_bytes'.split()),
    'float': frozenset('__abs__ __add__ __bool__ __ceil__ __class__ __delattr__ __dir__ __divmod__ __doc__ __eq__ __float__ __floor__ __floordiv__ __format__ __ge__ __getattribute__ __getformat__ __getnewargs__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __int__ __le__ __lt__ __mod__ __mul__ __ne__ __neg__ __new__ __pos__ __pow__ __radd__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rmod__ __rmul__ __round__ __rpow__ __rsub__ __rtruediv__ __setattr__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __trunc__ as_integer_ratio conjugate fromhex hex imag is_integer real'.split()),
    'bool': frozenset('__abs__ __add__ __and__ __bool__ __ceil__ __class__ __delattr__ __dir__ __divmod__ __doc__ __eq__ __float__ __floor__ __floordiv__ __format__ __ge__ __getattribute__ __getnewargs__ __getstate__ __gt__ __hash__ __index__ __init__ __init_subclass__ __int__ __invert__ __le__ __lshift__ __lt__ __mod__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmod__ __rmul__ __ror__ __round__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __trunc__ __xor__ as_integer_ratio bit_count bit_length conjugate denominator from_bytes imag is_integer numerator real to_bytes'.split()),
    'none': frozenset('__bool__ __class__ __delattr__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __setattr__ __sizeof__ __str__ __subclasshook__'.split()),
    'npfloat': frozenset('T __abs__ __add__ __and__ __array__ __array_interface__ __array_priority__ __array_struct__ __array_wrap__ __bool__ __buffer__ __ceil__ __class__ __class_getitem__ __copy__ __deepcopy__ __delattr__ __dir__ __divmod__ __doc__ __eq__ __float__ __floor__ __floordiv__ __format__ __ge__ __getattribute__ __getformat__ __getitem__ __getnewargs__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __int__ __invert__ __le__ __lshift__ __lt__ __mod__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmod__ __rmul__ __ror__ __round__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setstate__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __trunc__ __xor__ all any argmax argmin argsort as_integer_ratio astype base byteswap choose clip compress conj conjugate copy cumprod cumsum data diagonal dtype dump dumps fill flags flat flatten fromhex getfield hex imag is_integer item itemset itemsize max mean min nbytes ndim newbyteorder nonzero prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view'.split()),
    'npint': frozenset('T __abs__ __add__ __and__ __array__ __array_interface__ __array_priority__ __array_struct__ __array_wrap__ __bool__ __buffer__ __class__ __class_getitem__ __copy__ __deepcopy__ __delattr__ __dir__ __divmod__ __doc__ __eq__ __float__ __floordiv__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __index__ __init__ __init_subclass__ __int__ __invert__ __le__ __lshift__ __lt__ __mod__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmod__ __rmul__ __ror__ __round__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setstate__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __xor__ all any argmax argmin argsort astype base bit_count byteswap choose clip compress conj conjugate copy cumprod cumsum data denominator diagonal dtype dump dumps fill flags flat flatten getfield imag is_integer item itemset itemsize max mean min nbytes ndim newbyteorder nonzero numerator prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view'.split()),
    'npbool': frozenset('T __abs__ __add__ __and__ __array__ __array_interface__ __array_priority__ __array_struct__ __array_wrap__ __bool__ __buffer__ __class__ __copy__ __deepcopy__ __delattr__ __dir__ __divmod__ __doc__ __eq__ __float__ __floordiv__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __index__ __init__ __init_subclass__ __int__ __invert__ __le__ __lshift__ __lt__ __mod__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmod__ __rmul__ __ror__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setstate__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __xor__ all any argmax argmin argsort astype base byteswap choose clip compress conj conjugate copy cumprod cumsum data diagonal dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view'.split()),
    'npts': frozenset('T __abs__ __add__ __and__ __array__ __array_interface__ __array_priority__ __array_struct__ __array_wrap__ __bool__ __buffer__ __class__ __copy__ __deepcopy__ __delattr__ __dir__ __divmod__ __doc__ __eq__ __float__ __floordiv__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __int__ __invert__ __le__ __lshift__ __lt__ __mod__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmod__ __rmul__ __ror__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setstate__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __xor__ all any argmax argmin argsort astype base byteswap choose clip compress conj conjugate copy cumprod cumsum data diagonal dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view'.split()),
    'nptd': frozenset('T __abs__ __add__ __and__ __array__ __array_interface__ __array_priority__ __array_struct__ __array_wrap__ __bool__ __buffer__ __class__ __class_getitem__ __copy__ __deepcopy__ __delattr__ __dir__ __divmod__ __doc__ __eq__ __float__ __floordiv__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __int__ __invert__ __le__ __lshift__ __lt__ __mod__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmod__ __rmul__ __ror__ __round__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setstate__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __xor__ all any argmax argmin argsort astype base byteswap choose clip compress conj conjugate copy cumprod cumsum data denominator diagonal dtype dump dumps fill flags flat flatten getfield imag is_integer item itemset itemsize max mean min nbytes ndim newbyteorder nonzero numerator prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view'.split()),
    'pdts': frozenset('__add__ __array_priority__ __class__ __delattr__ __dict__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __module__ __ne__ __new__ __pyx_vtable__ __radd__ __reduce__ __reduce_cython__ __reduce_ex__ __repr__ __rsub__ __setattr__ __setstate__ __setstate_cython__ __sizeof__ __str__ __sub__ __subclasshook__ __weakref__ _creso _date_repr _from_dt64 _from_value_and_reso _repr_base _round _time_repr _value as_unit asm8 astimezone ceil combine ctime date day day_name day_of_week day_of_year dayofweek dayofyear days_in_month daysinmonth dst floor fold fromisocalendar fromisoformat fromordinal fromtimestamp hour is_leap_year is_month_end is_month_start is_quarter_end is_quarter_start is_year_end is_year_start isocalendar isoformat isoweekday max microsecond min minute month month_name nanosecond normalize now quarter replace resolution round second strftime strptime time timestamp timetuple timetz to_datetime64 to_julian_date to_numpy to_period to_pydatetime today toordinal tz tz_convert tz_localize tzinfo tzname unit utcfromtimestamp utcnow utcoffset utctimetuple value week weekday weekofyear year'.split()),
    'pdtd': frozenset('__abs__ __add__ __array_priority__ __bool__ __class__ __delattr__ __dict__ __dir__ __divmod__ __doc__ __eq__ __floordiv__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __mod__ __module__ __mul__ __ne__ __neg__ __new__ __pos__ __pyx_vtable__ __radd__ __rdivmod__ __reduce__ __reduce_cython__ __reduce_ex__ __repr__ __rfloordiv__ __rmod__ __rmul__ __rsub__ __rtruediv__ __setattr__ __setstate__ __setstate_cython__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __weakref__ _creso _d _from_value_and_reso _h _is_populated _m _maybe_cast_to_matching_resos _ms _ns _repr_base _req_any_kwargs_new _round _s _unit _us _value as_unit asm8 ceil components days floor isoformat max microseconds min nanoseconds resolution resolution_string round seconds to_numpy to_pytimedelta to_timedelta64 total_seconds unit value view'.split()),
    'pyts': frozenset('__add__ __class__ __delattr__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __ne__ __new__ __radd__ __reduce__ __reduce_ex__ __repr__ __rsub__ __setattr__ __sizeof__ __str__ __sub__ __subclasshook__ astimezone combine ctime date day dst fold fromisocalendar fromisoformat fromordinal fromtimestamp hour isocalendar isoformat isoweekday max microsecond min minute month now replace resolution second strftime strptime time timestamp timetuple timetz today toordinal tzinfo tzname utcfromtimestamp utcnow utcoffset utctimetuple weekday year'.split()),
    'pytd': frozenset('__abs__ __add__ __bool__ __class__ __delattr__ __dir__ __divmod__ __doc__ __eq__ __floordiv__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __mod__ __mul__ __ne__ __neg__ __new__ __pos__ __radd__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rmod__ __rmul__ __rsub__ __rtruediv__ __setattr__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ days max microseconds min resolution seconds total_seconds'.split()),
    'ndarray': frozenset('T __abs__ __add__ __and__ __array__ __array_finalize__ __array_function__ __array_interface__ __array_prepare__ __array_priority__ __array_struct__ __array_ufunc__ __array_wrap__ __bool__ __buffer__ __class__ __class_getitem__ __complex__ __contains__ __copy__ __deepcopy__ __delattr__ __delitem__ __dir__ __divmod__ __dlpack__ __dlpack_device__ __doc__ __eq__ __float__ __floordiv__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __iadd__ __iand__ __ifloordiv__ __ilshift__ __imatmul__ __imod__ __imul__ __index__ __init__ __init_subclass__ __int__ __invert__ __ior__ __ipow__ __irshift__ __isub__ __iter__ __itruediv__ __ixor__ __le__ __len__ __lshift__ __lt__ __matmul__ __mod__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmatmul__ __rmod__ __rmul__ __ror__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setitem__ __setstate__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __xor__ all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view'.split()),
    'Series': frozenset('T _AXIS_LEN _AXIS_ORDERS _AXIS_TO_AXIS_NUMBER _HANDLED_TYPES __abs__ __add__ __and__ __annotations__ __array__ __array_priority__ __array_ufunc__ __bool__ __class__ __column_consortium_standard__ __contains__ __copy__ __deepcopy__ __delattr__ __delitem__ __dict__ __dir__ __divmod__ __doc__ __eq__ __finalize__ __float__ __floordiv__ __format__ __ge__ __getattr__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __iadd__ __iand__ __ifloordiv__ __imod__ __imul__ __init__ __init_subclass__ __int__ __invert__ __ior__ __ipow__ __isub__ __iter__ __itruediv__ __ixor__ __le__ __len__ __lt__ __matmul__ __mod__ __module__ __mul__ __ne__ __neg__ __new__ __nonzero__ __or__ __pandas_priority__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rmatmul__ __rmod__ __rmul__ __ror__ __round__ __rpow__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setitem__ __setstate__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __weakref__ __xor__ _accessors _accum_func _agg_examples_doc _agg_see_also_doc _align_for_op _align_frame _align_series _append _arith_method _as_manager _binop _can_hold_na _check_inplace_and_allows_duplicate_labels _check_is_chained_assignment_possible _check_label_or_level_ambiguity _check_setitem_copy _clear_item_cache _clip_with_one_bound _clip_with_scalar _cmp_method _consolidate _consolidate_inplace _construct_axes_dict _construct_result _constructor _constructor_expanddim _constructor_expanddim_from_mgr _constructor_from_mgr _data _deprecate_downcast _dir_additions _dir_deletions _drop_axis _drop_labels_or_levels _duplicated _find_valid_index _flex_method _from_mgr _get_axis _get_axis_name _get_axis_number _get_axis_resolvers _get_block_manager_axis _get_bool_data _get_cacher _get_cleaned_column_resolvers _get_index_resolvers _get_label_or_level_values _get_numeric_data _get_rows_with_mask _get_value _get_values_tuple _get_with _getitem_slice _gotitem _hidden_attrs _indexed_same _info_axis _info_axis_name _info_axis_number _init_dict _init_mgr _inplace_method _internal_names _internal_names_set _is_cached _is_copy _is_label_or_level_reference _is_label_reference _is_level_reference _is_mixed_type _is_view _is_view_after_cow_rules _ixs _logical_func _logical_method _map_values _maybe_update_cacher _memory_usage _metadata _min_count_stat_function _needs_reindex_multi _pad_or_backfill _protect_consolidate _reduce _references _reindex_axes _reindex_indexer _reindex_multi _reindex_with_indexers _rename _replace_single _repr_data_resource_ _repr_latex_ _reset_cache _reset_cacher _set_as_cached _set_axis _set_axis_name _set_axis_nocheck _set_is_copy _set_labels _set_name _set_value _set_values _set_with _set_with_engine _shift_with_freq _slice _stat_function _stat_function_ddof _take_with_is_copy _to_latex_via_styler _typ _update_inplace _validate_dtype _values _where abs add add_prefix add_suffix agg aggregate align all any apply argmax argmin argsort array asfreq asof astype at at_time attrs autocorr axes backfill between between_time bfill bool case_when cat clip combine combine_first compare convert_dtypes copy corr count cov cummax cummin cumprod cumsum describe diff div divide divmod dot drop drop_duplicates droplevel dropna dt dtype dtypes duplicated empty eq equals ewm expanding explode factorize ffill fillna filter first first_valid_index flags floordiv ge get groupby gt hasnans head hist iat idxmax idxmin iloc index infer_objects info interpolate is_monotonic_decreasing is_monotonic_increasing is_unique isin isna isnull item items keys kurt kurtosis last last_valid_index le list loc lt map mask max mean median memory_usage min mod mode mul multiply name nbytes ndim ne nlargest notna notnull nsmallest nunique pad pct_change pipe plot pop pow prod product quantile radd rank ravel rdiv rdivmod reindex reindex_like rename rename_axis reorder_levels repeat replace resample reset_index rfloordiv rmod rmul rolling round rpow rsub rtruediv sample searchsorted sem set_axis set_flags shape shift size skew sort_index sort_values sparse squeeze std str struct sub subtract sum swapaxes swaplevel tail take to_clipboard to_csv to_dict to_excel to_frame to_hdf to_json to_latex to_list to_markdown to_numpy to_period to_pickle to_sql to_string to_timestamp to_xarray tolist transform transpose truediv truncate tz_convert tz_localize unique unstack update value_counts values var view where xs'.split()),
    'NA': frozenset('_HANDLED_TYPES __abs__ __add__ __and__ __array_priority__ __array_ufunc__ __bool__ __class__ __delattr__ __dict__ __dir__ __divmod__ __doc__ __eq__ __floordiv__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __invert__ __le__ __lt__ __matmul__ __mod__ __module__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_cython__ __reduce_ex__ __repr__ __rfloordiv__ __rmatmul__ __rmod__ __rmul__ __ror__ __rpow__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setstate__ __setstate_cython__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __weakref__ __xor__ _instance'.split()),
    'NaT': frozenset('__add__ __array_priority__ __class__ __delattr__ __dict__ __dir__ __doc__ __eq__ __floordiv__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __module__ __mul__ __ne__ __neg__ __new__ __pos__ __radd__ __reduce__ __reduce_cython__ __reduce_ex__ __repr__ __rfloordiv__ __rmul__ __rsub__ __rtruediv__ __setattr__ __setstate_cython__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __weakref__ _value as_unit asm8 astimezone ceil combine ctime date day day_name day_of_week day_of_year dayofweek dayofyear days days_in_month daysinmonth dst floor fold fromisocalendar fromisoformat fromordinal fromtimestamp hour is_leap_year is_month_end is_month_start is_quarter_end is_quarter_start is_year_end is_year_start isocalendar isoformat isoweekday max microsecond microseconds millisecond min minute month month_name nanosecond nanoseconds now quarter qyear replace resolution round second seconds strftime strptime time timestamp timetuple timetz to_datetime64 to_numpy to_pydatetime today toordinal total_seconds tz tz_convert tz_localize tzinfo tzname utcfromtimestamp utcnow utcoffset utctimetuple value week weekday weekofyear year'.split()),
    'iter': frozenset('__class__ __del__ __delattr__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __iter__ __le__ __lt__ __name__ __ne__ __new__ __next__ __qualname__ __reduce__ __reduce_ex__ __repr__ __setattr__ __sizeof__ __str__ __subclasshook__ close gi_code gi_frame gi_running gi_suspended gi_yieldfrom send throw'.split()),
    'slice': frozenset('__class__ __delattr__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __setattr__ __sizeof__ __str__ __subclasshook__ indices start step stop'.split()),
    'partial': frozenset('__call__ __class__ __class_getitem__ __delattr__ __dict__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __module__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __setattr__ __setstate__ __sizeof__ __str__ __subclasshook__ __vectorcalloffset__ args func keywords'.split()),
    'function': frozenset('__annotations__ __builtins__ __call__ __class__ __closure__ __code__ __defaults__ __delattr__ __dict__ __dir__ __doc__ __eq__ __format__ __ge__ __get__ __getattribute__ __getstate__ __globals__ __gt__ __hash__ __init__ __init_subclass__ __kwdefaults__ __le__ __lt__ __module__ __name__ __ne__ __new__ __qualname__ __reduce__ __reduce_ex__ __repr__ __setattr__ __sizeof__ __str__ __subclasshook__ __type_params__'.split()),
    'Interval': frozenset('__add__ __array_priority__ __class__ __contains__ __delattr__ __dir__ __doc__ __eq__ __floordiv__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __mul__ __ne__ __new__ __radd__ __reduce__ __reduce_cython__ __reduce_ex__ __repr__ __rfloordiv__ __rmul__ __rsub__ __rtruediv__ __setattr__ __setstate__ __setstate_cython__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ _check_closed_matches _typ _validate_endpoint closed closed_left closed_right is_empty left length mid open_left open_right overlaps right'.split()),
    'ExtensionArray': frozenset('T __annotations__ __array_ufunc__ __class__ __contains__ __delattr__ __dict__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __iter__ __le__ __len__ __lt__ __module__ __ne__ __new__ __pandas_priority__ __reduce__ __reduce_ex__ __repr__ __setattr__ __setitem__ __sizeof__ __str__ __subclasshook__ __weakref__ _accumulate _can_hold_na _concat_same_type _empty _explode _fill_mask_inplace _formatter _from_factorized _from_scalars _from_sequence _from_sequence_of_strings _get_repr_footer _groupby_op _hash_pandas_object _hasna _mode _pad_or_backfill _putmask _quantile _rank _reduce _repr_2d _typ _values_for_argsort _values_for_factorize _values_for_json _where argmax argmin argsort astype copy delete dropna dtype duplicated equals factorize fillna insert interpolate isin isna map nbytes ndim ravel repeat searchsorted shape shift size take to_numpy tolist transpose unique view'.split()),
}
