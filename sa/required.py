"""Pointers each public operation must have established before it succeeds (audited against the header documentation):
arguments, the implementation behind them, and `ALLOC:<place>` for the four functions of an allocator argument."""
REQ = {
    "rcutils_allocator_is_valid": ('arg0', 'ALLOC:arg0'),
    "rcutils_array_list_add": ('arg0', 'arg0->impl', 'arg1'),
    "rcutils_array_list_fini": ('arg0', 'arg0->impl'),
    "rcutils_array_list_get": ('arg0', 'arg0->impl', 'arg2'),
    "rcutils_array_list_get_size": ('arg0', 'arg0->impl', 'arg1'),
    "rcutils_array_list_init": ('arg0', 'arg3', 'ALLOC:arg3'),
    "rcutils_array_list_remove": ('arg0', 'arg0->impl'),
    "rcutils_array_list_set": ('arg0', 'arg0->impl', 'arg2'),
    "rcutils_calculate_directory_size": ('arg0', 'arg1', 'ALLOC:byval'),
    "rcutils_calculate_directory_size_with_recursion": ('arg0', 'arg2', 'ALLOC:byval'),
    "rcutils_char_array_expand_as_needed": ("arg0",),
    "rcutils_char_array_fini": ("arg0",),
    "rcutils_char_array_init": ('arg0', 'arg2', 'ALLOC:arg2'),
    "rcutils_char_array_memcpy": ('arg0',),
    "rcutils_char_array_resize": ('arg0', 'ALLOC:arg0'),
    "rcutils_char_array_strcat": ('arg0', 'arg1'),
    "rcutils_char_array_strcpy": ('arg0', 'arg1'),
    "rcutils_char_array_strncat": ("arg0",),
    "rcutils_char_array_vsprintf": ('arg0', 'arg1'),
    "rcutils_cli_option_exist": ('arg0', 'arg1', 'arg2'),
    "rcutils_dir_iter_next": ("arg0",),
    "rcutils_dir_iter_start": ('arg0', 'ALLOC:byval'),
    "rcutils_exists": ("arg0",),
    "rcutils_expand_user": ('arg0', 'ALLOC:byval'),
    "rcutils_format_string_limit": ('arg2', 'ALLOC:byval'),
    "rcutils_get_cwd": ("arg0",),
    "rcutils_get_executable_name": ("ALLOC:byval",),
    "rcutils_get_platform_library_name": ('arg0', 'arg1'),
    "rcutils_get_symbol": ('arg0', 'arg0->lib_pointer', 'arg1'),
    "rcutils_hash_map_fini": ('arg0', 'arg0->impl'),
    "rcutils_hash_map_get": ('arg0', 'arg0->impl', 'arg1', 'arg2'),
    "rcutils_hash_map_get_capacity": ('arg0', 'arg0->impl', 'arg1'),
    "rcutils_hash_map_get_next_key_and_data": ('arg0', 'arg0->impl', 'arg2', 'arg3'),
    "rcutils_hash_map_get_size": ('arg0', 'arg0->impl', 'arg1'),
    "rcutils_hash_map_init": ('arg0', 'arg4', 'arg5', 'arg6', 'ALLOC:arg6'),
    "rcutils_hash_map_key_exists": ('arg0', 'arg0->impl', 'arg1'),
    "rcutils_hash_map_set": ('arg0', 'arg0->impl', 'arg1', 'arg2'),
    "rcutils_hash_map_unset": ('arg0', 'arg0->impl', 'arg1'),
    "rcutils_is_readable": ("arg0",),
    "rcutils_is_readable_and_writable": ("arg0",),
    "rcutils_is_writable": ("arg0",),
    "rcutils_join_path": ('arg0', 'arg1', 'ALLOC:byval'),
    "rcutils_load_shared_library": ('arg0', 'arg1', 'ALLOC:byval'),
    "rcutils_logging_set_logger_level": ("arg0",),
    "rcutils_logging_severity_level_from_string": ('arg0', 'arg2', 'ALLOC:byval'),
    "rcutils_mkdir": ("arg0",),
    "rcutils_qsort": ("arg3",),
    "rcutils_reallocf": ('arg2', 'ALLOC:arg2'),
    "rcutils_set_env": ("arg0",),
    "rcutils_set_env_overwrite": ("arg0",),
    "rcutils_split": ("arg3",),
    "rcutils_split_last": ("arg3",),
    "rcutils_steady_time_now": ("arg0",),
    "rcutils_strdup": ('arg0', 'ALLOC:byval'),
    "rcutils_string_array_cmp": ('arg0', 'arg1', 'arg2'),
    "rcutils_string_array_fini": ("arg0",),
    "rcutils_string_array_init": ('arg0', 'arg2', 'ALLOC:arg2'),
    "rcutils_string_array_resize": ("arg0",),
    "rcutils_string_map_clear": ('arg0', 'arg0->impl'),
    "rcutils_string_map_copy": ('arg0', 'arg0->impl', 'arg1', 'arg1->impl'),
    "rcutils_string_map_fini": ("arg0",),
    "rcutils_string_map_get": ('arg0', 'arg0->impl', 'arg1'),
    "rcutils_string_map_get_capacity": ('arg0', 'arg0->impl', 'arg1'),
    "rcutils_string_map_get_next_key": ('arg0', 'arg0->impl'),
    "rcutils_string_map_get_size": ('arg0', 'arg0->impl', 'arg1'),
    "rcutils_string_map_getn": ('arg0', 'arg0->impl', 'arg1'),
    "rcutils_string_map_init": ('arg0', 'ALLOC:byval'),
    "rcutils_string_map_key_exists": ('arg0', 'arg0->impl', 'arg1'),
    "rcutils_string_map_key_existsn": ('arg0', 'arg0->impl', 'arg1'),
    "rcutils_string_map_reserve": ('arg0', 'arg0->impl'),
    "rcutils_string_map_set": ('arg0', 'arg0->impl', 'arg1', 'arg2'),
    "rcutils_string_map_set_no_resize": ('arg0', 'arg0->impl', 'arg1', 'arg2'),
    "rcutils_string_map_unset": ('arg0', 'arg0->impl', 'arg1'),
    "rcutils_strndup": ('arg0', 'ALLOC:byval'),
    "rcutils_system_time_now": ("arg0",),
    "rcutils_time_point_value_as_date_string": ('arg0', 'arg1'),
    "rcutils_time_point_value_as_nanoseconds_string": ('arg0', 'arg1'),
    "rcutils_time_point_value_as_seconds_string": ('arg0', 'arg1'),
    "rcutils_uint8_array_fini": ('arg0', 'ALLOC:arg0'),
    "rcutils_uint8_array_init": ('arg0', 'arg2', 'ALLOC:arg2'),
    "rcutils_uint8_array_resize": ('arg0', 'ALLOC:arg0'),
    "rcutils_unload_shared_library": ('arg0', 'ALLOC:arg0', 'arg0->lib_pointer'),
}
