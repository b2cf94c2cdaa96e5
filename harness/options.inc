// options: field, command line, group and label in a YAML file (generated once from args.cc; checked by use)
X(vt_color, "--vt_color", "Output Control", "Color")
X(vt_no_color, "--vt_no_color", "Output Control", "No Color")
X(vt_quiet, "--vt_quiet", "Output Control", "Quiet")
X(vt_no_sigint, "--vt_no_SIGINT", "Signal Handling", "Disable SIGINT")
X(vt_no_sigsegv, "--vt_no_SIGSEGV", "Signal Handling", "Disable SIGSEGV")
X(vt_no_sigbus, "--vt_no_SIGBUS", "Signal Handling", "Disable SIGBUS")
X(vt_no_terminate, "--vt_no_terminate", "Signal Handling", "Disable Terminate Signal")
X(vt_memory_reporters, "--vt_memory_reporters", "Memory Usage Reporting", "Memory Reporters")
X(vt_print_memory_each_phase, "--vt_print_memory_each_phase", "Memory Usage Reporting", "Print Memory Each Phase")
X(vt_print_memory_node, "--vt_print_memory_node", "Memory Usage Reporting", "Print Memory On Node")
X(vt_allow_memory_report_with_ps, "--vt_allow_memory_report_with_ps", "Memory Usage Reporting", "Allow Memory Report With ps")
X(vt_print_memory_sched_poll, "--vt_print_memory_sched_poll", "Memory Usage Reporting", "Print Memory Scheduler Poll")
X(vt_print_memory_footprint, "--vt_print_memory_footprint", "Memory Usage Reporting", "Print Memory Footprint")
X(vt_no_warn_stack, "--vt_no_warn_stack", "Dump Stack Backtrace", "Enable Stack Output on Warning")
X(vt_no_assert_stack, "--vt_no_assert_stack", "Dump Stack Backtrace", "Enable Stack Output on Assert")
X(vt_no_abort_stack, "--vt_no_abort_stack", "Dump Stack Backtrace", "Enable Stack Output on Abort")
X(vt_no_stack, "--vt_no_stack", "Dump Stack Backtrace", "Enable Stack Output")
X(vt_stack_file, "--vt_stack_file", "Dump Stack Backtrace", "File")
X(vt_stack_dir, "--vt_stack_dir", "Dump Stack Backtrace", "Directory")
X(vt_stack_mod, "--vt_stack_mod", "Dump Stack Backtrace", "Output Rank Mod")
X(vt_trace, "--vt_trace", "Tracing Configuration", "Enabled")
X(vt_trace_file, "--vt_trace_file", "Tracing Configuration", "File")
X(vt_trace_dir, "--vt_trace_dir", "Tracing Configuration", "Directory")
X(vt_trace_mod, "--vt_trace_mod", "Tracing Configuration", "Output Rank Mod")
X(vt_trace_flush_size, "--vt_trace_flush_size", "Tracing Configuration", "Flush Size")
X(vt_trace_gzip_finish_flush, "--vt_trace_gzip_finish_flush", "Tracing Configuration", "GZip Finish Flush")
X(vt_trace_sys_all, "--vt_trace_sys_all", "Tracing Configuration", "Include All System Events")
X(vt_trace_sys_term, "--vt_trace_sys_term", "Tracing Configuration", "Include Termination Events")
X(vt_trace_sys_location, "--vt_trace_sys_location", "Tracing Configuration", "Include Location Events")
X(vt_trace_sys_collection, "--vt_trace_sys_collection", "Tracing Configuration", "Include Collection Events")
X(vt_trace_sys_serial_msg, "--vt_trace_sys_serial_msg", "Tracing Configuration", "Include Message Serialization Events")
X(vt_trace_spec, "--vt_trace_spec", "Tracing Configuration", "Specification Enabled")
X(vt_trace_memory_usage, "--vt_trace_memory_usage", "Tracing Configuration", "Memory Usage")
X(vt_trace_event_polling, "--vt_trace_event_polling", "Tracing Configuration", "Event Polling")
X(vt_trace_irecv_polling, "--vt_trace_irecv_polling", "Tracing Configuration", "IRecv Polling")
X(vt_debug_all, "--vt_debug_all", "Debug Print Configuration", "Enable All")
X(vt_debug_none, "--vt_debug_none", "Debug Print Configuration", "Disable All")
X(vt_debug_gen, "--vt_debug_gen", "*", "gen")
X(vt_debug_runtime, "--vt_debug_runtime", "*", "runtime")
X(vt_debug_active, "--vt_debug_active", "*", "active")
X(vt_debug_term, "--vt_debug_term", "*", "term")
X(vt_debug_termds, "--vt_debug_termds", "*", "termds")
X(vt_debug_barrier, "--vt_debug_barrier", "*", "barrier")
X(vt_debug_event, "--vt_debug_event", "*", "event")
X(vt_debug_pipe, "--vt_debug_pipe", "*", "pipe")
X(vt_debug_pool, "--vt_debug_pool", "*", "pool")
X(vt_debug_reduce, "--vt_debug_reduce", "*", "reduce")
X(vt_debug_rdma, "--vt_debug_rdma", "*", "rdma")
X(vt_debug_rdma_channel, "--vt_debug_rdma_channel", "*", "rdma_channel")
X(vt_debug_rdma_state, "--vt_debug_rdma_state", "*", "rdma_state")
X(vt_debug_handler, "--vt_debug_handler", "*", "handler")
X(vt_debug_hierlb, "--vt_debug_hierlb", "*", "hierlb")
X(vt_debug_temperedlb, "--vt_debug_temperedlb", "*", "temperedlb")
X(vt_debug_temperedwmin, "--vt_debug_temperedwmin", "*", "temperedwmin")
X(vt_debug_scatter, "--vt_debug_scatter", "*", "scatter")
X(vt_debug_serial_msg, "--vt_debug_serial_msg", "*", "serial_msg")
X(vt_debug_trace, "--vt_debug_trace", "*", "trace")
X(vt_debug_location, "--vt_debug_location", "*", "location")
X(vt_debug_lb, "--vt_debug_lb", "*", "lb")
X(vt_debug_vrt, "--vt_debug_vrt", "*", "vrt")
X(vt_debug_vrt_coll, "--vt_debug_vrt_coll", "*", "vrt_coll")
X(vt_debug_worker, "--vt_debug_worker", "*", "worker")
X(vt_debug_group, "--vt_debug_group", "*", "group")
X(vt_debug_broadcast, "--vt_debug_broadcast", "*", "broadcast")
X(vt_debug_objgroup, "--vt_debug_objgroup", "*", "objgroup")
X(vt_debug_phase, "--vt_debug_phase", "*", "phase")
X(vt_debug_context, "--vt_debug_context", "*", "context")
X(vt_debug_epoch, "--vt_debug_epoch", "*", "epoch")
X(vt_debug_replay, "--vt_debug_replay", "Debug Print Configuration", "Debug Replay")
X(vt_debug_print_flush, "--vt_debug_print_flush", "Debug Print Configuration", "Debug Print Flush")
X(vt_lb, "--vt_lb", "Load Balancing", "Enabled")
X(vt_lb_quiet, "--vt_lb_quiet", "Load Balancing", "Quiet")
X(vt_lb_show_config, "--vt_lb_show_config", "Load Balancing", "Show Configuration")
X(vt_lb_args, "--vt_lb_args", "Load Balancing", "Arguments")
X(vt_lb_interval, "--vt_lb_interval", "Load Balancing", "Interval")
X(vt_lb_keep_last_elm, "--vt_lb_keep_last_elm", "Load Balancing", "Keep Last Element")
X(vt_lb_data, "--vt_lb_data", "Load Balancing/LB Data Output", "Enabled")
X(vt_lb_data_in, "--vt_lb_data_in", "Load Balancing/LB Data Input", "Enabled")
X(vt_lb_data_compress, "--vt_lb_data_compress", "Load Balancing/LB Data Input", "Enable Compression")
X(vt_lb_data_dir, "--vt_lb_data_dir", "Load Balancing/LB Data Output", "Directory")
X(vt_lb_data_file, "--vt_lb_data_file", "Load Balancing/LB Data Output", "File")
X(vt_lb_data_dir_in, "--vt_lb_data_dir_in", "Load Balancing/LB Data Input", "Directory")
X(vt_lb_data_file_in, "--vt_lb_data_file_in", "Load Balancing/LB Data Input", "File")
X(vt_lb_statistics, "--vt_lb_statistics", "Load Balancing/LB Statistics", "Enabled")
X(vt_lb_statistics_compress, "--vt_lb_statistics_compress", "Load Balancing/LB Statistics", "Enable Compression")
X(vt_lb_statistics_file, "--vt_lb_statistics_file", "Load Balancing/LB Statistics", "File")
X(vt_lb_statistics_dir, "--vt_lb_statistics_dir", "Load Balancing/LB Statistics", "Directory")
X(vt_lb_statistics_freq, "--vt_lb_statistics_freq", "Load Balancing/LB Statistics", "Frequency")
X(vt_lb_self_migration, "--vt_lb_self_migration", "Load Balancing", "Enable Self Migration")
X(vt_lb_spec, "--vt_lb_spec", "Load Balancing", "Enable Specification")
X(vt_lb_run_lb_first_phase, "--vt_lb_run_lb_first_phase", "", "")
X(vt_diag_enable, "--vt_diag_enable", "Diagnostics", "Enabled")
X(vt_diag_print_summary, "--vt_diag_print_summary", "Diagnostics", "Enable Print Summary")
X(vt_diag_summary_file, "--vt_diag_summary_file", "Diagnostics", "Summary File")
X(vt_diag_summary_csv_file, "--vt_diag_summary_csv_file", "Diagnostics", "Summary CSV File")
X(vt_diag_csv_base_units, "--vt_diag_csv_base_units", "Diagnostics", "Use CSV Base Units")
X(vt_no_detect_hang, "--vt_no_detect_hang", "Termination", "No Detect Hangs")
X(vt_term_rooted_use_ds, "--vt_term_rooted_use_ds", "Termination", "Use DS for Rooted")
X(vt_term_rooted_use_wave, "--vt_term_rooted_use_wave", "Termination", "Use Wave for Rooted")
X(vt_epoch_graph_on_hang, "--vt_epoch_graph_on_hang", "Termination", "Output Epoch Graph on Hang")
X(vt_epoch_graph_terse, "--vt_epoch_graph_terse", "Termination", "Terse Epoch Graph Output")
X(vt_print_no_progress, "--vt_print_no_progress", "Termination", "Print No Progress")
X(vt_hang_freq, "--vt_hang_freq", "Termination", "Hang Check Frequency")
X(vt_pause, "--vt_pause", "Launch", "Pause")
X(vt_user_1, "--vt_user_1", "User Options", "")
X(vt_user_2, "--vt_user_2", "User Options", "")
X(vt_user_3, "--vt_user_3", "User Options", "")
X(vt_user_int_1, "--vt_user_int_1", "User Options", "")
X(vt_user_int_2, "--vt_user_int_2", "User Options", "")
X(vt_user_int_3, "--vt_user_int_3", "User Options", "")
X(vt_user_str_1, "--vt_user_str_1", "User Options", "")
X(vt_user_str_2, "--vt_user_str_2", "User Options", "")
X(vt_user_str_3, "--vt_user_str_3", "User Options", "")
X(vt_sched_num_progress, "--vt_sched_num_progress", "Scheduler Configuration", "Num Progress Times")
X(vt_sched_progress_han, "--vt_sched_progress_han", "Scheduler Configuration", "Progress Handlers")
X(vt_sched_progress_sec, "--vt_sched_progress_sec", "Scheduler Configuration", "Progress Seconds")
X(vt_max_mpi_send_size, "--vt_max_mpi_send_size", "Runtime", "Max MPI Send Size")
X(vt_no_assert_fail, "--vt_no_assert_fail", "Runtime", "Disable Assert Failure")
X(vt_throw_on_abort, "--vt_throw_on_abort", "Runtime", "Throw on Abort")
X(vt_tv, "--vt_tv", "Visualization", "Enabled")
X(vt_tv_config_file, "--vt_tv_config_file", "Visualization", "Configuration File")
X(vt_ult_disable, "--vt_ult_disable", "", "")
X(vt_ult_stack_size, "--vt_ult_stack_size", "", "")
