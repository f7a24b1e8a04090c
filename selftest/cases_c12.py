R = 'include/hogl/detail/record.hpp'
P = 'include/hogl/detail/argpack.hpp'
B = 'src/ringbuf.cc'
Q = 'include/hogl/detail/ringbuf.hpp'
A = 'include/hogl/detail/args.hpp'
CASES = [
 ('c12-nul', ['C12'], 'V', [(R, '		--room; // Save room for null-terminator\n', '')]),
 ('c12-room0', ['C12'], 'V', [(R, '		if (!len || !room) {', '		if (!len) {')]),
 ('c12-mark', ['C12'], 'V', [(R, 'memcpy(dst + n, ">>>", 3);', 'memcpy(dst + n, ">>>>", 4);'), (R, '			if (n > 3) {\n				n -= 3;', '			if (n > 3) {\n				n -= 2;')]),
 ('c12-mark2', ['C12'], 'V', [(R, '			if (n > 3) {', '			if (n > 1) {')]),
 ('c12-len', ['C12'], 'V', [(R, 'n = len = room;', 'n = room;')]),
 ('c12-data', ['C12'], 'V', [(R, '		len = len > room ? room : len;\n\n		memcpy((uint8_t *) this->argval + offset, (const void *) data, len);', '		len = len > tailroom ? tailroom : len;\n\n		memcpy((uint8_t *) this->argval + offset, (const void *) data, len);')]),
 ('c12-data16', ['C12'], 'V', [(R, '		len = len > room ? room : len;\n\n		memcpy((uint8_t *) this->argval + offset, (const void *) data, len);', '		len = (uint16_t) len > room ? room : len;\n\n		memcpy((uint8_t *) this->argval + offset, (const void *) data, len);')]),
 ('c12-xhead', ['C12'], 'V', [(R, '		if (len < hlen) {\n			set_arg_data(i, 0, 0);\n			return 0;\n		}\n		unsigned int dlen = len - hlen;', '		unsigned int dlen = len < hlen ? 0 : len - hlen;')]),
 ('c12-xlen', ['C12'], 'V', [(R, 'set_arg_data(i, offset, len);\n		return len;\n	}\n\n	/**\n 	 * Set record argument', 'set_arg_data(i, offset, dlen);\n		return len;\n	}\n\n	/**\n 	 * Set record argument')]),
 ('c12-xret', ['C12'], 'V', [(R, 'set_arg_data(i, offset, len);\n		return len;\n	}\n\n	/**\n 	 * Set record argument', 'set_arg_data(i, offset, len);\n		return dlen;\n	}\n\n	/**\n 	 * Set record argument')]),
 ('c12-ret', ['C12'], 'V', [(R, '		return len + 1;', '		return len;')]),
 ('c12-off', ['C12'], 'V', [(R, '		unsigned int n = ap.nargs();\n		unsigned int offset = n * sizeof(uint64_t);', '		unsigned int n = ap.nargs();\n		unsigned int offset = n * sizeof(uint32_t);')]),
 ('c12-off-x', ['C12'], 'V', [(R, '				offset += copy_xdump(i, (const arg_xdump *) data, tailroom, offset);', '				copy_xdump(i, (const arg_xdump *) data, tailroom, offset);')]),
 ('c12-nargs', ['C12'], 'V', [(P, 'while (t) { t = t >> 4; ++n; }', 'while (t >> 4) { t = t >> 4; ++n; }')]),
 ('c12-nargs15', ['C12'], 'V', [(P, 'while (t) { t = t >> 4; ++n; }', 'while (t && n < 15) { t = t >> 4; ++n; }')]),
 ('c12-arglen', ['C12'], 'V', [(P, 'uint32_t arglen[16];', 'uint16_t arglen[16];')]),
 ('c12-tail', ['C12'], 'V', [(B, '	_rec_tailroom = record_size() - record::header_size();', '	_rec_tailroom = record_size();')]),
 ('c12-tail2', ['C12'], 'V', [(B, '_rec_tailroom = record_size() - record::header_size();', '_rec_tailroom = record_size() - record::header_size() + (opts.record_tailroom > 200) * 8;')]),
 ('c12-alloc', ['C12'], 'V', [(B, 'sysconf(_SC_PAGESIZE), (size_t) capacity() * record_size());', 'sysconf(_SC_PAGESIZE), (size_t) _capacity * record_size());')]),
 ('c12-shift', ['C12'], 'V', [(B, '_rec_shift    = __roundup_log2(sizeof(record) + _rec_tailroom);', '_rec_shift    = __roundup_log2(sizeof(record) + _rec_tailroom) - (_rec_tailroom > 300);')]),
 ('c12-type', ['C12'], 'V', [(R, 'argtype |= (uint64_t) (type & 0xf) << (i * 4);', 'argtype |= (uint64_t) (type & 0x7) << (i * 4);')]),
 ('c12-type32', ['C12'], 'V', [(P, 'argtype |= (uint64_t) (type & 0xf) << (i * 4);', 'argtype |= (unsigned) (type & 0xf) << ((i * 4) & 31);')]),
 ('c12-ref-min', ['C12'], 'ok', [(R, '		len = len > room ? room : len;\n\n		memcpy((uint8_t *) this->argval + offset, (const void *) data, len);', '		if (len > room)\n			len = room;\n		uint8_t *to = (uint8_t *) &this->argval[0];\n		to += offset;\n		if (len) memcpy(to, data, len);')]),
 ('c12-ref-cstr', ['C12'], 'ok', [(R, '''		--room; // Save room for null-terminator

		uint8_t *dst = (uint8_t *) this->argval + offset;
		unsigned int n = len; // Copy len
		if (n > room) {
			// Doesn't fit. Add truncation marker (if possible)
			n = len = room;
			if (n > 3) {
				n -= 3;
				memcpy(dst + n, ">>>", 3);
			}
		}
		memcpy(dst, str, n);
		dst[len] = '\\0';
''', '''		uint8_t *dst = (uint8_t *) this->argval + offset;
		if (len >= room) {
			len = room - 1;
			memcpy(dst, str, len);
			for (unsigned int k = len > 3 ? len - 3 : len; k < len; k++) dst[k] = '>';
		} else
			memcpy(dst, str, len);
		*(dst + len) = 0;
''')]),
 ('c12-ref-args', ['C12'], 'ok', [(R, '''			if (type == arg::RAW) {
				data = ap.get_arg_data(i, len);
				offset += copy_data(i, data, len, tailroom, offset);
			} else if (type == arg::XDUMP) {
				data = ap.get_arg_data(i, len);
				offset += copy_xdump(i, (const arg_xdump *) data, tailroom, offset);
			} else if (type == arg::CSTR) {
				data = ap.get_arg_data(i, len);
				offset += copy_cstr(i, data, len, tailroom, offset);
			} else
				set_arg_val64(i, ap.get_arg_val64(i));
''', '''			data = ap.get_arg_data(i, len);
			switch (type) {
			case arg::CSTR: offset += copy_cstr(i, data, len, tailroom, offset); break;
			case arg::XDUMP: offset += copy_xdump(i, (const arg_xdump *) data, tailroom, offset); break;
			case arg::RAW: offset += copy_data(i, data, len, tailroom, offset); break;
			default: argval[i].u64 = ap.argval[i].u64;
			}
''')]),
 ('c12-ref-tail', ['C12'], 'ok', [(B, '''	if (opts.record_tailroom > record::argval_size())
		_rec_tailroom = opts.record_tailroom - record::argval_size();
	else
		_rec_tailroom = 0;
''', '''	const unsigned int have = record::argval_size();
	_rec_tailroom = opts.record_tailroom <= have ? 0 : opts.record_tailroom - have;
''')]),
 ('c12-ref-big', ['C12'], 'ok', [(B, '_rec_shift    = __roundup_log2(sizeof(record) + _rec_tailroom);', '_rec_shift    = __roundup_log2(sizeof(record) + _rec_tailroom);\n	if (_rec_shift < 9) _rec_shift = 9;')]),
 ('c12-ref-mark', ['C12'], 'ok', [(R, '			if (n > 3) {\n				n -= 3;\n				memcpy(dst + n, ">>>", 3);\n			}\n', '')]),
]
