H = 'tools/raw-parser.hpp'
P = 'tools/raw-parser.cc'
B = 'tools/rdbuf.cc'
BLOB = '''		if (len > room) {
			_failed = true;
			_error << "format: blob is too large @ " << stage;
			return 0;
		}
'''
CASES = [
 ('c21-blob-room', ['C21'], 'V', [(H, BLOB, '')]),
 ('c21-blob-off1', ['C21'], 'V', [(H, 'if (len > room) {', 'if (len > room + 1) {')]),
 ('c21-blob-ge', ['C21'], 'ok', [(H, 'if (len > room) {', 'if (!(len <= room)) {')]),
 ('c21-str-noroom', ['C21'], 'V', [(H, 'if (!room) {', 'if (false) {')]),
 ('c21-str-room', ['C21'], 'V', [(H, 'read_blob<T>(str, room - 1, stage)', 'read_blob<T>(str, room, stage)')]),
 ('c21-str-noterm', ['C21'], 'V', [(H, 'str[len++] = 0;', 'len++;')]),
 ('c21-hdr', ['C21'], 'V', [(P, 'unsigned long room   = _max_record_size - hogl::record::header_size();', 'unsigned long room   = _max_record_size;')]),
 ('c21-room-noslots', ['C21'], 'V', [(P, '(char *) r.argval + offset, room - offset, "cstr-arg"', '(char *) r.argval + offset, room, "cstr-arg"')]),
 ('c21-room-noslots2', ['C21'], 'V', [(P, 'n = read_blob<uint32_t>((char *) r.argval + offset, room - offset, "raw-arg");', 'n = read_blob<uint32_t>((char *) r.argval + offset, room, "raw-arg");')]),
 ('c21-min', ['C21'], 'V', [(P, '''	if (_max_record_size < sizeof(hogl::record))
		_max_record_size = sizeof(hogl::record);
''', '')]),
 ('c21-partial', ['C21'], 'V', [(P, '	if (_failed) return 0;\n\n	return &_format_data;', '	return &_format_data;')]),
 ('c21-name-wide', ['C21'], 'V', [(P, 'read_str<uint8_t>(str, raw_area::MAX_NAME_LEN, stage);', 'read_str<uint8_t>(str, 512, stage);\n	if (0)')]),
 ('c21-name-alloc', ['C21'], 'V', [(P, '_section_name = (char *) malloc(MAX_NAME_LEN);', '_section_name = (char *) malloc(128);')]),
 ('c21-ringname', ['C21'], 'V', [(P, '_ring_name = (char *) malloc(_area.MAX_NAME_LEN);', '_ring_name = (char *) malloc(_area.MAX_NAME_LEN / 2);')]),
 ('c21-blob-readfail', ['C21'], 'V', [(H, '''		_failed = ! _in.read(data, len);
		if (_failed) {
			_error << "input: failed to read blob @ " << stage;
			return 0;
		}
''', '''		if (!_in.read(data, len)) {
			_error << "input: failed to read blob @ " << stage;
			return 0;
		}
''')]),
 ('c21-uint-readfail', ['C21'], 'V', [(H, '''		_failed = ! _in.read(&v, sizeof(T));
		if (_failed)
			_error << "input: failed''', '''		if (!_in.read(&v, sizeof(T)))
			_error << "input: failed''')]),
 ('c21-ref-noguard', ['C21'], 'ok', [(P, '	for (unsigned int i=0; i < record::NARGS; i++) {\n		if (_failed) return;\n', '	for (unsigned int i=0; i < record::NARGS; i++) {\n')]),
 ('c21-offset', ['C21'], 'V', [(P, '''			r.set_arg_data(i, offset, n);
			offset += n;''', '''			r.set_arg_data(i, offset, n);''')]),
 ('c21-strlen', ['C21'], 'V', [(P, 'r.set_arg_data(i, offset, n - 1);', 'r.set_arg_data(i, offset, n);')]),
 ('c21-width-v1', ['C21'], 'V', [(P, 'if (_ver == V1)', 'if (_ver != V1)')]),
 ('c21-int32', ['C21'], 'V', [(P, '		case arg::INT32:\n		case arg::UINT32:\n			r.set', '		case arg::UINT32:\n			r.set')]),
 ('c21-gstr', ['C21'], 'V', [(P, '			r.clear_arg_type(i);\n			r.set_arg_type(i, hogl::arg::CSTR);\n', '')]),
 ('c21-gstr-noclear', ['C21'], 'V', [(P, '			r.clear_arg_type(i);\n', '')]),
 ('c21-len16', ['C21'], 'V', [(H, 'unsigned long len = read_uint<T>(stage);', 'uint16_t len = read_uint<T>(stage);')]),
 ('c21-copyout', ['C21'], 'V', [(B, 'unsigned int n = std::min(_size, len);', 'unsigned int n = len;')]),
 ('c21-copyhead', ['C21'], 'V', [(B, '	_head  += n;\n', '')]),
 ('c21-copysize', ['C21'], 'V', [(B, '	_size  -= n;\n', '	_size  = 0;\n')]),
 ('c21-copydst', ['C21'], 'V', [(B, 'memcpy(dst, head(), n); dst += n;', 'memcpy(dst, head(), n);')]),
 ('c21-readin-head', ['C21'], 'V', [(B, '	_head = 0;\n	_size = r;', '	_size = r;')]),
 ('c21-readin-cap', ['C21'], 'V', [(B, '::read(_fd, _data, _capacity)', '::read(_fd, _data, _capacity + 16)')]),
 ('c21-readin-neg', ['C21'], 'V', [(B, '''	if (r < 0) {
		_errno = errno;
		return false;
	}
	if (!r) {''', '''	if (!r) {''')]),
 ('c21-readin-count', ['C21'], 'V', [(B, '	_count += n;\n', '	_count++;\n')]),
 ('c21-tail-buf', ['C21'], 'V', [(B, 'r = ::read(_ifd, buf, sizeof(buf));', 'r = ::read(_ifd, buf, 4096);')]),
 ('c21-init', ['C21'], 'V', [(B, '_data(0), _capacity(0), _head(0), _size(0), _count(0),\n	', ''), ]),
 ('c21-init-fd', ['C21'], 'V', [(B, '_fd(-1), ', '')]),
 ('c21-readerr', ['C21'], 'V', [(B, '		if (!_size && !read_in())\n			return false;', '		if (!_size && !read_in())\n			return !_errno;')]),
 ('c21-ref-order', ['C21'], 'ok', [(B, '	_count += n;\n	_head  += n;\n	_size  -= n;\n	len    -= n;', '	len    -= n;\n	_size  -= n;\n	_head  += n;\n	_count += n;')]),
 ('c21-ref-loop', ['C21'], 'ok', [(B, '		if (!_size && !read_in())\n			return false;', '		if (_size == 0) {\n			bool more = read_in();\n			if (!more) return false;\n		}')]),
 ('c21-ref-retry', ['C21'], 'ok', [(B, 'retry:\n', 'while (true) {\n'), (B, 'goto retry;', 'continue;'), (B, '	_size = r;\n	return true;\n', '	_size = r;\n	return true;\n}\n')]),
 ('c21-ref-args', ['C21'], 'ok', [(P, '		unsigned int type = r.get_arg_type(i);\n		unsigned long n;\n', '		const unsigned int type = r.get_arg_type(i);\n		unsigned long n = 0;\n		if (type == arg::NONE) break;\n')]),
 ('c21-ref-ver', ['C21'], 'ok', [(P, '''			if (_ver == V1)
				n = read_blob<uint16_t>((char *) r.argval + offset, room - offset, "raw-arg");
			else
				n = read_blob<uint32_t>((char *) r.argval + offset, room - offset, "raw-arg");
''', '''			{
			char *dst = (char *) r.argval + offset;
			n = _ver == V1 ? read_blob<uint16_t>(dst, room - offset, "raw-arg") : read_blob<uint32_t>(dst, room - offset, "raw-arg");
			}
''')]),
 ('c21-ref-next', ['C21'], 'ok', [(P, '	if (_failed) return 0;\n\n	return &_format_data;', '	const hogl::format::data *d = &_format_data;\n	if (_failed) d = 0;\n	return d;')]),
]
