A = 'include/hogl/detail/args.hpp'
R = 'include/hogl/detail/record.hpp'
F = 'src/format-basic.cc'
W = 'src/format-raw.cc'
P = 'tools/raw-parser.cc'
K = 'include/hogl/c-api/args.h'
N = 'include/hogl/detail/preproc.hpp'
CASES = [
 ('c13-ctor-u16', ['C13'], 'V', [(A, 'arg(uint16_t i)      : type(UINT32),  val(i)', 'arg(uint16_t i)      : type(INT32),  val(i)')]),
 ('c13-ctor-bool', ['C13'], 'V', [(A, 'arg(bool i)          : type(UINT32),  val(i)', 'arg(bool i)          : type(UINT64),  val(i)')]),
 ('c13-ctor-ull', ['C13'], 'V', [(A, 'arg(unsigned long long u) : type(UINT64)', 'arg(unsigned long long u) : type(INT64)')]),
 ('c13-ctor-long', ['C13'], 'V', [(A, '''#else
	// 64bit arch
	hogl_force_inline arg(unsigned long u) : type(UINT64), val(u) {}
	hogl_force_inline arg(long i)          : type(INT64),  val(i) {}''', '''#else
	// 64bit arch
	hogl_force_inline arg(unsigned long u) : type(UINT64), val(u) {}
	hogl_force_inline arg(long i)          : type(INT64),  val((unsigned int) i) {}''')]),
 ('c13-ctor-dbl', ['C13'], 'V', [(A, '		u.d = d;\n', '		u.d = (float) d;\n')]),
 ('c13-ctor-ptr', ['C13'], 'V', [(A, 'arg(void *ptr)       : type(POINTER), val((unsigned long) ptr)', 'arg(void *ptr)       : type(UINT64), val((unsigned long) ptr)')]),
 ('c13-ctor-vptr', ['C13'], 'V', [(A, 'arg(volatile void *ptr) : type(POINTER), val((unsigned long) ptr)', 'arg(volatile void *ptr) : type(POINTER), val((unsigned int)(unsigned long) ptr)')]),
 ('c13-ctor-gstr', ['C13'], 'V', [(A, 'arg(const arg_gstr &s) : type(GSTR), val((uint64_t) s.str) {}', 'arg(const arg_gstr &s) : type(CSTR), val((uint64_t) s.str), len(strlen(s.str)) {}')]),
 ('c13-ctor-char', ['C13'], 'V', [(A, 'hogl_force_inline arg(uint8_t i)       : type(UINT32),  val(i) {}', 'hogl_force_inline arg(uint8_t i)       : type(UINT32),  val(i) {}\n	hogl_force_inline arg(char i)       : type(UINT32),  val((unsigned char) i) {}')]),
 ('c13-ctor-rawlen', ['C13'], 'V', [(A, 'val((uint64_t) raw.ptr), len(raw.len)', 'val((uint64_t) raw.ptr), len((uint16_t) raw.len)')]),
 ('c13-is32', ['C13'], 'V', [(A, '		return type == UINT32 || type == INT32;', '		return type == UINT32 || type == INT32 || type == POINTER;')]),
 ('c13-types-mask', ['C13'], 'V', [(R, 'argtype |= (uint64_t) (type & 0xf) << (i * 4);', 'argtype |= (uint64_t) (type & 0x7) << (i * 4);')]),
 ('c13-plain-i32', ['C13'], 'V', [(F, 'sb.printf("%ld", (int32_t) v.i64);', 'sb.printf("%ld", v.i64);')]),
 ('c13-plain-u32', ['C13'], 'V', [(F, 'sb.printf("%lu", (uint32_t) v.u64);', 'sb.printf("%ld", (int32_t) v.u64);')]),
 ('c13-plain-i64', ['C13'], 'V', [(F, 'sb.printf("%lld", v.i64);', 'sb.printf("%llu", v.u64);')]),
 ('c13-plain-u64', ['C13'], 'V', [(F, '''		case (arg::UINT64):
			sb.printf("%llu", v.u64);''', '''		case (arg::UINT64):
			sb.printf("%lu", (unsigned int) v.u64);''')]),
 ('c13-plain-dbl', ['C13'], 'V', [(F, 'sb.printf("%lf", v.dbl);', 'sb.printf("%f", (float) v.dbl);')]),
 ('c13-plain-wide', ['C13'], 'V', [(F, '''		if (arg::is_32bit(type))
			v.u64 = r.get_arg_val32(i);
		else
			v.u64 = r.get_arg_val64(i);

		// Add''', '''		v.u64 = r.get_arg_val64(i);

		// Add'''), (F, 'sb.printf("%ld", (int32_t) v.i64);', 'sb.printf("%ld", v.i64);')]),
 ('c13-plain-last', ['C13'], 'V', [(F, 'for (unsigned int i = d.next_arg; i < r.NARGS; i++) {', 'for (unsigned int i = d.next_arg; i < r.NARGS - 1; i++) {')]),
 ('c13-fmt-last', ['C13'], 'V', [(F, 'for (unsigned int i = d.next_arg + 1; i < record::NARGS; i++) {', 'for (unsigned int i = d.next_arg + 1; i < record::NARGS - 1; i++) {')]),
 ('c13-fmt-i32', ['C13'], 'V', [(F, 'arg_store.push_back((int32_t) v.u64);', 'arg_store.push_back((int64_t) v.u64);')]),
 ('c13-fmt-u32', ['C13'], 'V', [(F, 'arg_store.push_back((uint32_t) v.u64);', 'arg_store.push_back((int32_t) v.u64);')]),
 ('c13-fmt-i64', ['C13'], 'V', [(F, 'arg_store.push_back(v.i64);', 'arg_store.push_back((int) v.i64);')]),
 ('c13-fmt-skip', ['C13'], 'V', [(F, '''		case (arg::RAW):
			arg_store.push_back("rawdata data not supported with format strings");
			break;
''', '''		case (arg::RAW):
			break;
''')]),
 ('c13-fmt-str', ['C13'], 'V', [(F, '			arg_store.push_back(d.arg_str[i]);', '			arg_store.push_back(d.arg_str[i & 7]);')]),
 ('c13-pre-strings', ['C13'], 'V', [(F, '''	for (unsigned int i = 0; i < record::NARGS; i++) {
		unsigned int type = r.get_arg_type(i);
		if (type == arg::NONE)
			break;
		if (type == arg::CSTR''', '''	for (unsigned int i = 0; i < record::NARGS; i++) {
		unsigned int type = r.get_arg_type(i);
		if (type == arg::NONE || type == arg::RAW)
			break;
		if (type == arg::CSTR''')]),
 ('c13-xdump-x16', ['C13'], 'V', [(F, '		case 2: return xdump_multi(sb, (uint16_t*) ptr, len, "%x",   xf);', '		case 2: return xdump_multi(sb, (int16_t*) ptr, len, "%x",   xf);')]),
 ('c13-xdump-u1', ['C13'], 'V', [(F, 'case 1: return xdump_multi(sb, (uint8_t*) ptr, len, "%u",   xf);', 'case 1: return xdump_multi(sb, (int8_t*) ptr, len, "%d",   xf);')]),
 ('c13-xdump-d4', ['C13'], 'V', [(F, 'case 4: return xdump_multi(sb, (int32_t*) ptr, len, "%ld",  xf);', 'case 4: return xdump_multi(sb, (uint32_t*) ptr, len, "%lu",  xf);')]),
 ('c13-xdump-f8', ['C13'], 'V', [(F, 'case 8: return xdump_multi(sb, (double*)ptr, len, __dbl_fmt(xf.precision), xf);', 'case 8: return xdump_multi(sb, (float*)ptr, len, __dbl_fmt(xf.precision), xf);')]),
 ('c13-xdump-lw', ['C13'], 'V', [(F, 'for (unsigned int lw=1; i < n && lw < xf.line_width; lw++) {', 'for (unsigned int lw=1; i < n && lw <= xf.line_width; lw++) {')]),
 ('c13-xdump-prec', ['C13'], 'V', [(F, '	case 4: return "%.4f";', '	case 4: return "%.3f";')]),
 ('c13-hex-off', ['C13'], 'V', [(F, 'sb.printf("%02x ", data[offset + i]);', 'sb.printf("%02x ", data[i]);')]),
 ('c13-raw-i32', ['C13'], 'V', [(W, '''			case arg::INT32:
			case arg::UINT32:
				add_uint<uint32_t>''', '''			case arg::UINT32:
				add_uint<uint32_t>''')]),
 ('c13-raw-blob16', ['C13'], 'V', [(W, 'add_blob<uint32_t>(data, len);', 'add_blob<uint16_t>(data, len);')]),
 ('c13-raw-cstr8', ['C13'], 'V', [(W, 'add_str<uint16_t>((const char *) data, len);', 'add_str<uint8_t>((const char *) data, len);')]),
 ('c13-raw-gstr', ['C13'], 'V', [(W, '				if (arg::is_32bit(arg::GSTR))\n					add_str', '				if (!arg::is_32bit(arg::GSTR))\n					add_str')]),
 ('c13-raw-last', ['C13'], 'V', [(W, 'for (i=0; i < record::NARGS; i++) {', 'for (i=0; i + 1 < record::NARGS; i++) {')]),
 ('c13-raw-xdump', ['C13'], 'V', [(W, '			case arg::XDUMP:\n			case arg::RAW:', '			case arg::RAW:')]),
 ('c13-raw-section', ['C13'], 'V', [(W, 'add_str<uint8_t>(area_name);\n		add_str<uint8_t>(sect_name);', 'add_str<uint8_t>(sect_name);\n		add_str<uint8_t>(area_name);')]),
 ('c13-rd-dbl', ['C13'], 'V', [(P, '		case arg::INT32:\n		case arg::UINT32:\n			r.set', '		case arg::DOUBLE:\n			r.set_arg_val32(i, read_uint<uint64_t>("dbl"));\n			break;\n		case arg::INT32:\n		case arg::UINT32:\n			r.set')]),
 ('c13-rd-args', ['C13'], 'V', [(P, 'for (unsigned int i=0; i < record::NARGS; i++) {', 'for (unsigned int i=0; i < record::NARGS / 2; i++) {')]),
 ('c13-rd-strlen', ['C13'], 'V', [(P, 'r.set_arg_data(i, offset, n - 1);', 'r.set_arg_data(i, offset, n);')]),
 ('c13-ref-plain', ['C13'], 'ok', [(F, '''		if (arg::is_32bit(type))
			v.u64 = r.get_arg_val32(i);
		else
			v.u64 = r.get_arg_val64(i);

		// Add''', '''		const bool narrow = type == arg::INT32 || type == arg::UINT32;
		v.u64 = narrow ? r.get_arg_val32(i) : r.get_arg_val64(i);

		// Add'''), (F, 'sb.printf("%lld", v.i64);', 'sb.printf("%ld", v.i64);')]),
 ('c13-ref-raw', ['C13'], 'ok', [(W, '''			case arg::INT32:
			case arg::UINT32:
				add_uint<uint32_t>(r.get_arg_val32(i));
				break;
			default:
				add_uint<uint64_t>(r.get_arg_val64(i));
				break;
			}''', '''			default:
				if (arg::is_32bit(type)) {
					uint32_t w = r.get_arg_val32(i);
					add_uint(w);
				} else
					add_uint<uint64_t>(r.get_arg_val64(i));
			}''')]),
 ('c13-ref-ctor', ['C13'], 'ok', [(A, '		union { double d; uint64_t u; } u;\n		u.d = d;\n		val = u.u;', '		memcpy(&val, &d, sizeof(val));')]),
 ('c13-ref-fmt', ['C13'], 'ok', [(F, 'arg_store.push_back(v.i64);', 'arg_store.push_back((long long) v.i64);'), (F, 'arg_store.push_back((int32_t) v.u64);', 'arg_store.push_back(static_cast<int>(v.u64 & 0xffffffffu));')]),
 ('c13-ref-dump', ['C13'], 'ok', [(F, '''	sb.printf(fmt, ptr[i++].v);
	while (i < n) {
		sb.push_back(xf.delim);
		sb.printf(fmt, ptr[i++].v);
	}''', '''	for (i = 0; i < n; i++) {
		if (i) sb.push_back(xf.delim);
		sb.printf(fmt, ptr[i].v);
	}''')]),
]
