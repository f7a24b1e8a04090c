C = 'src/c-api.cc'
P = 'include/hogl/c-api/post.h'
N = 'include/hogl/detail/preproc.hpp'
G = 'include/hogl/c-api/args.h'
FO = '		opts.perms     = _opts->perms;\n		opts.max_size  = _opts->max_size;\n		opts.max_count = _opts->max_count;\n		opts.buffer_capacity = _opts->buffer_capacity;\n'
CASES = [
 ('c24-perms', ['C24'], 'V', [(C, 'opts.perms     = _opts->perms;', 'opts.perms     = _opts->perms ? _opts->perms : 0666;')]),
 ('c24-count', ['C24'], 'V', [(C, 'opts.max_count = _opts->max_count;', 'opts.max_count = (uint16_t) _opts->max_count;')]),
 ('c24-buf', ['C24'], 'V', [(C, '		opts.buffer_capacity = _opts->buffer_capacity;\n', '')]),
 ('c24-size', ['C24'], 'V', [(C, 'opts.max_size  = _opts->max_size;', 'opts.max_size  = (unsigned int) _opts->max_size;')]),
 ('c24-poll', ['C24'], 'V', [(C, 'opts.polling_interval_usec = _opts->polling_interval_usec;', 'opts.polling_interval_usec = _opts->polling_interval_usec ?: 10000;')]),
 ('c24-tso', ['C24'], 'V', [(C, 'opts.tso_buffer_capacity = _opts->tso_buffer_capacity;', 'if (_opts->features) opts.tso_buffer_capacity = _opts->tso_buffer_capacity;')]),
 ('c24-feat', ['C24'], 'V', [(C, 'opts.features            = _opts->features;', 'opts.features            |= _opts->features;')]),
 ('c24-mask', ['C24'], 'V', [(C, '			opts.default_mask = *mask;', '			(void) mask;')]),
 ('c24-spflag', ['C24'], 'V', [(C, 'hogl::schedparam::DELETE_ON_EXIT,\n					_opts->schedparam.cpu_affinity ? _opts->schedparam.cpu_affinity : "");\n	}\n\n	hogl::activate', '0,\n					_opts->schedparam.cpu_affinity ? _opts->schedparam.cpu_affinity : "");\n	}\n\n	hogl::activate')]),
 ('c24-spswap', ['C24'], 'V', [(C, 'new hogl::schedparam(_opts->schedparam.policy, _opts->schedparam.priority', 'new hogl::schedparam(_opts->schedparam.priority, _opts->schedparam.policy')]),
 ('c24-aff', ['C24'], 'V', [(C, '_opts->schedparam.cpu_affinity ? _opts->schedparam.cpu_affinity : "");\n	}\n	hogl::format', '"");\n	}\n	hogl::format')]),
 ('c24-affnull', ['C24'], 'V', [(C, '_opts->schedparam.cpu_affinity ? _opts->schedparam.cpu_affinity : "");\n	}\n	hogl::format', '_opts->schedparam.cpu_affinity);\n	}\n	hogl::format')]),
 ('c24-post7', ['C24'], 'V', [(C, 'hogl::post(area, sect, arg[0], arg[1], arg[2], arg[3], arg[4], arg[5], arg[6]);', 'hogl::post(area, sect, arg[0], arg[1], arg[2], arg[3], arg[4], arg[6], arg[5]);')]),
 ('c24-post12', ['C24'], 'V', [(C, 'arg[8], arg[9], arg[10], arg[11]);', 'arg[8], arg[9], arg[10], arg[10]);')]),
 ('c24-post16', ['C24'], 'V', [(C, 'arg[12], arg[13], arg[14], arg[15]);', 'arg[12], arg[13], arg[14]);')]),
 ('c24-i8', ['C24'], 'V', [(P, '			un.s64 = *(int8_t *)__hogl_p;', '			un.s64 = *(uint8_t *)__hogl_p;')]),
 ('c24-i16', ['C24'], 'V', [(P, '			un.s64 = *(int16_t *)__hogl_p;					\\\n			args[i].type = HOGL_ARG_INT32;', '			un.s64 = *(int16_t *)__hogl_p;					\\\n			args[i].type = HOGL_ARG_UINT32;')]),
 ('c24-ull', ['C24'], 'V', [(P, 'un.u64 = *(unsigned long long *)__hogl_p;', 'un.u64 = *(unsigned int *)__hogl_p;')]),
 ('c24-flt', ['C24'], 'V', [(P, 'un.dbl = *(float *)__hogl_p;', 'un.flt = *(float *)__hogl_p;')]),
 ('c24-dbl', ['C24'], 'V', [(P, 'un.dbl = *(double *)__hogl_p;', 'un.dbl = (float) *(double *)__hogl_p;')]),
 ('c24-sll', ['C24'], 'V', [(P, '		if (__builtin_types_compatible_p (typeof(__hogl_x), long long)) { \\\n			un.s64 = *(long long *)__hogl_p;		\\\n			args[i].type = HOGL_ARG_INT64;			\\\n		} else							\\\n', '')]),
 ('c24-strlen', ['C24'], 'V', [(P, 'arg->len  = str ? strlen(str) : 0;', 'arg->len  = str ? strlen(str) + 1 : 0;')]),
 ('c24-strnull', ['C24'], 'V', [(P, 'arg->len  = str ? strlen(str) : 0;', 'arg->len  = str && *str ? strlen(str) : (int) sizeof(void *);')]),
 ('c24-enum', ['C24'], 'V', [(G, '	HOGL_ARG_POINTER,// Pointer\n	HOGL_ARG_DOUBLE, // Floating point number', '	HOGL_ARG_DOUBLE, // Floating point number\n	HOGL_ARG_POINTER,// Pointer')]),
 ('c24-layout', ['C24'], 'V', [(G, '	unsigned int type;\n	uint64_t     val;\n	unsigned int len;', '	unsigned int type;\n	unsigned int len;\n	uint64_t     val;')]),
 ('c24-nargs', ['C24'], 'V', [(N, '#define HOGL_PP_FOR_EACH_13(w, x, ...) w(x); HOGL_PP_FOR_EACH_12(w, __VA_ARGS__)', '#define HOGL_PP_FOR_EACH_13(w, x, ...) HOGL_PP_FOR_EACH_12(w, __VA_ARGS__); w(x)')]),
 ('c24-setall', ['C24'], 'V', [(C, 'area->set();', 'area->set(0);')]),
 ('c24-resetall', ['C24'], 'V', [(C, 'area->reset();', 'area->set();')]),
 ('c24-reset', ['C24'], 'V', [(C, 'area->reset(sect);', 'area->reset(sect & 63);')]),
 ('c24-test', ['C24'], 'V', [(C, 'return area->test(sect);', 'return area->test((uint8_t) (sect | (sect & 32)) & 0x5f);')]),
 ('c24-addarea', ['C24'], 'V', [(C, 'return (const hogl_area_t) hogl::add_area(name, sections);', 'return (const hogl_area_t) hogl::add_area(name, 0);')]),
 ('c24-fields', ['C24'], 'V', [(C, '	if (fields)\n		fmt = new hogl::format_basic(fields);', '	if (fields && !*fields)\n		fmt = new hogl::format_basic(fields);')]),
 ('c24-delout', ['C24'], 'V', [(C, '	hogl::output *out = (hogl::output *)_out;\n	delete out;', '	hogl::output_stdout *out = (hogl::output_stdout *)_out;\n	out->hogl::output_stdout::~output_stdout(); ::operator delete(out);')]),
 ('c24-tlsroom', ['C24'], 'V', [(C, '_opts->record_tailroom ? _opts->record_tailroom : 80;', '80;')]),
 ('c24-tlsprio', ['C24'], 'V', [(C, 'opts.prio     = _opts->ring_priority;', 'opts.prio     = _opts->ring_priority & 7;')]),
 ('c24-tlscap', ['C24'], 'V', [(C, 'opts.capacity = _opts->ring_capacity;', 'opts.capacity = _opts->ring_capacity ? _opts->ring_priority : 1;')]),
 ('c24-tlsflags', ['C24'], 'V', [(C, '	opts.flags    = 0;\n', '	opts.flags    = hogl::ringbuf::SHARED;\n')]),
 ('c24-flush', ['C24'], 'V', [(C, 'extern "C" void hogl_flush()\n{\n	hogl::flush();', 'extern "C" void hogl_flush()\n{\n	if (hogl::default_engine && !hogl::default_engine->get_stats().recs_out) hogl::flush();')]),
 ('c24-ref-opts', ['C24'], 'ok', [(C, FO, '		copy_opts(opts, _opts);\n'), (C, '// ---- Output wrappers ----', 'static void copy_opts(hogl::output_file::options &o, const struct hogl_output_options *c)\n{\n	o.buffer_capacity = c->buffer_capacity;\n	o.max_count = c->max_count;\n	o.max_size = c->max_size;\n	o.perms = c->perms;\n}\n\n// ---- Output wrappers ----')]),
 ('c24-ref-sched', ['C24'], 'ok', [(C, 'opts.schedparam = new hogl::schedparam(_opts->schedparam.policy, _opts->schedparam.priority,\n					hogl::schedparam::DELETE_ON_EXIT,\n					_opts->schedparam.cpu_affinity ? _opts->schedparam.cpu_affinity : "");\n	}\n\n	hogl::activate', 'opts.schedparam = mk_sched(_opts->schedparam);\n	}\n\n	hogl::activate'),
   (C, '// ---- Engine wrappers ----', 'static hogl::schedparam *mk_sched(const struct hogl_sched_param &p)\n{\n	const char *cpus = p.cpu_affinity;\n	if (!cpus)\n		cpus = "";\n	return new hogl::schedparam(p.policy, p.priority, hogl::schedparam::DELETE_ON_EXIT, cpus);\n}\n')]),
 ('c24-ref-fmt', ['C24'], 'ok', [(C, '	hogl::format *fmt;\n	if (fields)\n		fmt = new hogl::format_basic(fields);\n	else\n		fmt = new hogl::format_basic();\n	return fmt;', '	if (!fields)\n		return static_cast<hogl::format *>(new hogl::format_basic());\n	return static_cast<hogl::format *>(new hogl::format_basic(fields));')]),
 ('c24-ref-post', ['C24'], 'ok', [(C, 'hogl::post(area, sect, arg[0], arg[1], arg[2]);', 'const hogl::arg &a = *arg++, &b = *arg++;\n	hogl::post(area, sect, a, b, *arg);')]),
 ('c24-ref-strarg', ['C24'], 'ok', [(P, '	arg->type = HOGL_ARG_CSTR;\n	arg->len  = str ? strlen(str) : 0;\n	arg->val  = (unsigned long) str;', '	unsigned int n = 0;\n	if (str)\n		n = strlen(str);\n	arg->val  = (uint64_t) (uintptr_t) str;\n	arg->len  = n;\n	arg->type = HOGL_ARG_CSTR;')]),
 ('c24-ref-tls', ['C24'], 'ok', [(C, '_opts->record_tailroom ? _opts->record_tailroom : 80;', '_opts->record_tailroom;\n	if (!opts.record_tailroom)\n		opts.record_tailroom = 80;'), (C, '	hogl::tls *tls = new hogl::tls(name, opts);\n\n	return (hogl_tls_t) tls;', '	return (hogl_tls_t) new hogl::tls(name, opts);')]),
 ('c24-ref-del', ['C24'], 'ok', [(C, '	hogl::output *out = (hogl::output *)_out;\n	delete out;', '	if (_out)\n		delete static_cast<hogl::output *>(_out);')]),
]
