S = 'src/format-basic.cc'
R = 'src/format-raw.cc'
H = 'include/hogl/detail/ntos.hpp'
CASES = [
 ('c14-width0', ['C14'], 'V', [(S, 'const uint32_t line_width = xf.line_width ? xf.line_width : n;', 'const uint32_t line_width = xf.line_width;')]),
 ('c14-bw0', ['C14'], 'V', [(S, '	if (!xf.byte_width) {\n		sb.push_back("xdump width 0 not supported");\n		return;\n	}\n', ''), (S, 'len = (len - sizeof(arg_xdump::format)) / xf.byte_width;', 'len = (len - sizeof(arg_xdump::format)) / (xf.byte_width + 0);')]),
 ('c14-short', ['C14'], 'V', [(S, '	if (len < sizeof(arg_xdump::format)) {', '	if (len < sizeof(arg_xdump::format) && len) {')]),
 ('c14-multi0', ['C14'], 'V', [(S, '	if (!n) return;\n\n	if (!xf.line_width)', '	if (!xf.line_width)')]),
 ('c14-lw', ['C14'], 'V', [(S, 'for (unsigned int lw=1; i < n && lw < xf.line_width; lw++) {', 'for (unsigned int lw=1; lw < xf.line_width; lw++) {')]),
 ('c14-lw8', ['C14'], 'V', [(S, 'for (unsigned int lw=1; i < n && lw < xf.line_width; lw++) {', 'for (uint8_t lw=1; i < n && lw <= xf.line_width; lw++) {'), (S, '	for (unsigned int i=0; i < n;) {\n		sb.push_back("\\n\\t");', '	for (uint8_t i=0; i < n;) {\n		sb.push_back("\\n\\t");')]),
 ('c14-xlen', ['C14'], 'V', [(S, 'len = (len - sizeof(arg_xdump::format)) / xf.byte_width;', 'len = len / xf.byte_width;')]),
 ('c14-hex', ['C14'], 'V', [(S, 'for (i = 0; i < line_width && ((i + offset) < n); i++) {', 'for (i = 0; i < line_width && ((i + offset) <= n); i++) {')]),
 ('c14-bw3', ['C14'], 'V', [(S, '		case 4: return xdump_multi(sb, (int32_t*) ptr, len, "%ld",  xf);', '		case 3: case 4: return xdump_multi(sb, (int32_t*) ptr, len, "%ld",  xf);')]),
 ('c14-flt', ['C14'], 'V', [(S, 'case 4: return xdump_multi(sb, (float*) ptr, len, __flt_fmt(xf.precision), xf);', 'case 4: return xdump_multi(sb, (float*) ptr, len, xf.precision > 5 ? "%d" : __flt_fmt(xf.precision), xf);')]),
 ('c14-null', ['C14'], 'V', [(S, 'return ptr ? (const char *) ptr : "null";', 'return (const char *) ptr;')]),
 ('c14-nullc', ['C14'], 'V', [(S, '		if (!len)\n			return "null";\n		return str;', '		return str;')]),
 ('c14-hlen', ['C14'], 'V', [(S, 'unsigned int hlen = len_area_name + len_sect_name + len_ring_name + 6 + 3 * 20;', 'uint8_t hlen = len_area_name + len_sect_name + len_ring_name + 6 + 3 * 20;')]),
 ('c14-hlen1', ['C14'], 'V', [(S, 'len_ring_name + 9 + 4 * 20;', 'len_ring_name + 9 + 2 * 20;')]),
 ('c14-digit', ['C14'], 'V', [(H, '	uint8_t digit[32];\n\n	if (width', '	uint8_t digit[14];\n\n	if (width')]),
 ('c14-catch', ['C14'], 'V', [(S, '} catch(fmt::format_error& fe) {', '} catch(std::bad_alloc& fe) {')]),
 ('c14-rethrow', ['C14'], 'V', [(S, '		sb.push_back(fe.what());\n', '		if (d.next_arg) throw;\n		sb.push_back(fe.what());\n')]),
 ('c14-direct', ['C14'], 'V', [(S, '			sb.printf("%s", d.arg_str[i]);\n', '			sb.printf(d.arg_str[i]);\n')]),
 ('c14-conv', ['C14'], 'V', [(S, 'sb.printf("%lf", v.dbl);', 'sb.printf("%lf", v.u64);')]),
 ('c14-rawlen', ['C14'], 'V', [(R, '_sb.push_back((uint8_t *) data, n);', '_sb.push_back((uint8_t *) data, n + 1);')]),
 ('c14-rawnull', ['C14'], 'V', [(R, 'add_str<T>(str, str ? strlen(str) : 0);', 'add_str<T>(str, strlen(str));')]),
 ('c14-rawwrap', ['C14'], 'V', [(R, '		add_uint<T>(n);\n		_sb.push_back((uint8_t *) data, n);', '		add_uint<T>(n);\n		_sb.push_back((uint8_t *) data, len > n ? len + 2 : n);')]),
 ('c14-args', ['C14'], 'V', [(S, '	for (unsigned int i = 0; i < record::NARGS; i++) {\n		unsigned int type = r.get_arg_type(i);\n		if (type == arg::NONE)\n			break;\n		if (type == arg::CSTR || type == arg::GSTR)', '	for (unsigned int i = 0; i < record::NARGS - 1; i++) {\n		unsigned int type = r.get_arg_type(i);\n		if (type == arg::NONE)\n			break;\n		if (type == arg::CSTR || type == arg::GSTR)')]),
 ('c14-ref-helper', ['C14', 'C29'], 'ok', [(S, '''	try {
		ctx(std::back_inserter(sb), fmt::to_string_view(d.arg_str[d.next_arg]), arg_store).format<arg_fmt>();
	} catch(fmt::format_error& fe) {
		sb.push_back(fe.what());
	}
''', '''	auto go = [&]() { ctx(std::back_inserter(sb), fmt::to_string_view(d.arg_str[d.next_arg]), arg_store).format<arg_fmt>(); };
	try { go(); }
	catch (const std::exception& e) { sb.push_back(e.what()); }
''')]),
 ('c14-ref-multi', ['C14'], 'ok', [(S, '''	for (unsigned int i=0; i < n;) {
		sb.push_back("\\n\\t");
		sb.printf(fmt, ptr[i++].v);
		for (unsigned int lw=1; i < n && lw < xf.line_width; lw++) {
			sb.push_back(xf.delim);
			sb.printf(fmt, ptr[i++].v);
		}
	}
''', '''	unsigned int col = 0;
	for (unsigned int i = 0; i != n; ++i) {
		if (!col) sb.push_back("\\n\\t");
		else sb.push_back(xf.delim);
		sb.printf(fmt, ptr[i].v);
		if (++col == xf.line_width) col = 0;
	}
''')]),
 ('c14-ref-hex', ['C14'], 'ok', [(S, '''	uint32_t offset;
	for (offset = 0; offset < n; offset += line_width) {
		sb.printf("\\n\\t%03d: ", offset);
''', '''	uint32_t offset = 0;
	if (!n) return;
	for (const uint8_t *row = data; row < data + n; row += line_width, offset += line_width) {
		sb.printf("\\n\\t%03u: ", offset);
''')]),
 ('c14-ref-std', ['C14', 'C29'], 'ok', [(S, '''	uint8_t str[hlen];
	unsigned int i = 0;

	_tscache.update(r.timestamp);
	memcpy(&str[i], _tscache.str(), _tscache.len()); i += _tscache.len();
	str[i++] = ' ';
	memcpy(&str[i], d.ring_name, len_ring_name); i += len_ring_name;
	str[i++] = ':';
	u64tod(r.seqnum, str, i);
''', '''	uint8_t str[hlen];
	unsigned int i = 0;

	_tscache.update(r.timestamp);
	sb.push_back(_tscache.str(), _tscache.len());
	sb.push_back(' ');
	sb.push_back(d.ring_name);
	str[i++] = ':';
	u64tod(r.seqnum, str, i);
''')]),
 ('c14-ref-rawsw', ['C14'], 'ok', [(R, '''		T n = std::min(len, (unsigned long) std::numeric_limits<T>::max());
		add_uint<T>(n);
''', '''		const unsigned long lim = (T) ~(T) 0;
		T n = len < lim ? len : lim;
		add_uint(n);
''')]),
]
