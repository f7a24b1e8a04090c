S = 'src/format-basic.cc'
CASES = [
 ('c29-cachesec', ['C29'], 'V', [(S, '	if (_sec != ts.tv_sec) {\n		_sec = ts.tv_sec;', '	if (_sec < ts.tv_sec - 1) {\n		_sec = ts.tv_sec;')]),
 ('c29-cachehi', ['C29'], 'V', [(S, '	if (_nsec_hi != nhi) {\n		_nsec_hi = nhi;', '	if (_nsec_hi != nhi) {')]),
 ('c29-cachehi2', ['C29'], 'V', [(S, '	if (_nsec_hi != nhi) {\n		_nsec_hi = nhi;', '	if (_nsec_hi < nhi) {\n		_nsec_hi = nhi;')]),
 ('c29-cachehi3', ['C29'], 'V', [(S, '		u64tod(ts.tv_sec, _str, i, SEC_LEN);\n	}\n', '		u64tod(_sec, _str, i, SEC_LEN);\n	}\n'), (S, '	if (_nsec_hi != nhi) {', '	if (_nsec_hi != nhi && nhi) {')] if 0 else [(S, '	if (_nsec_hi != nhi) {', '	if (_nsec_hi != nhi && nhi) {')]),
 ('c29-nlo', ['C29'], 'V', [(S, 'u64tod(nlo, _str, i, NSEC_LO_LEN);', 'u64tod(nlo, _str, i);')]),
 ('c29-year', ['C29'], 'V', [(S, '(tm.tm_mon + 1), tm.tm_mday, (1900 + tm.tm_year),\n			tm.tm_hour, tm.tm_min, tm.tm_sec, ts.tv_nsec,\n', '(tm.tm_mon), tm.tm_mday, (1900 + tm.tm_year),\n			tm.tm_hour, tm.tm_min, tm.tm_sec, ts.tv_nsec,\n')]),
 ('c29-delta0', ['C29'], 'V', [(S, '	if (hogl_unlikely(_last_timestamp == timestamp(0)))\n		delta = 0;\n\n	_last_timestamp = r.timestamp;\n', '	if (hogl_unlikely(_last_timestamp == timestamp(0)))\n		_last_timestamp = r.timestamp;\n\n	delta = r.timestamp - _last_timestamp;\n')]),
 ('c29-deltastale', ['C29'], 'V', [(S, '		sb.printf("(%llu) ", delta.to_nsec());\n		_last_timestamp = r.timestamp;', '		sb.printf("(%llu) ", delta.to_nsec());\n		if (_fields & TIMESPEC) _last_timestamp = r.timestamp;')]),
 ('c29-seq32', ['C29'], 'V', [(S, '	case SEQNUM:\n		sb.printf("%lu ", r.seqnum);', '	case SEQNUM:\n		sb.printf("%u ", (uint32_t) r.seqnum);')]),
 ('c29-swap', ['C29'], 'V', [(S, 'sb.printf("%s:%s ", d.area_name, d.sect_name);', 'sb.printf("%s:%s ", d.sect_name, d.area_name);')]),
 ('c29-order', ['C29'], 'V', [(S, '''	switch(_fields & (AREA | SECTION)) {
	case (AREA | SECTION):
		sb.printf("%s:%s ", d.area_name, d.sect_name);
		break;
	case AREA:
		sb.printf("%s ", d.area_name);
		break;
''', '''	switch(_fields & (AREA | SECTION)) {
	case (AREA | SECTION):
		sb.printf("%s:%s ", d.area_name, d.sect_name);
		break;
	case AREA:
		if (_fields & RING) sb.printf("%s ", d.area_name);
		break;
''')]),
 ('c29-mask', ['C29'], 'V', [(S, '	if (_fields == DEFAULT)\n', '	if ((_fields & DEFAULT) == DEFAULT)\n')]),
 ('c29-fast1', ['C29'], 'V', [(S, '	else if (_fields == FAST1)\n', '	else if ((_fields & FAST0) == FAST0)\n')]),
 ('c29-name', ['C29'], 'V', [(S, '(s == "timedelta") _fields |= TIMEDELTA;', '(s == "timedelta") _fields |= TIMEDELTA | TIMESPEC;')]),
 ('c29-nameover', ['C29'], 'V', [(S, '(s == "seqnum")    _fields |= SEQNUM;', '(s == "seqnum")    _fields = SEQNUM;')]),
 ('c29-nonl', ['C29'], 'V', [(S, '			sb.printf("%lu", v.u64);\n			break;\n		}\n	}\n\n	sb.push_back(\'\\n\');', '			sb.printf("%lu", v.u64);\n			break;\n		}\n	}\n\n	if (d.next_arg == 0 || r.get_arg_type(1)) sb.push_back(\'\\n\');')] if 0 else [(S, '''	sb.push_back('\\n');
}

void format_basic::output_fmt''', '''	if (r.get_arg_type(1) != arg::NONE) sb.push_back('\\n');
}

void format_basic::output_fmt''')]),
 ('c29-preset', ['C29'], 'V', [('include/hogl/format-basic.hpp', 'FAST0   = (TIMESPEC | RING |', 'FAST0   = (TIMESTAMP | RING |')]),
 ('c29-sect8', ['C29'], 'V', [(S, 'rd.sect_name = area->section_name(r.section);', 'rd.sect_name = area->section_name(r.section ? r.section - 1 : 0);')]),
 ('c29-utc', ['C29'], 'V', [(S, '        	localtime_r(&ts.tv_sec, &tm);', '        	time_t s0 = ts.tv_sec % 86400; localtime_r(&s0, &tm);')]),
 ('c29-ref-helper', ['C29'], 'ok', [(S, '''	if (_fields & TIMEDELTA) {
		timestamp delta = r.timestamp - _last_timestamp;
		if (hogl_unlikely(_last_timestamp == timestamp(0)))
			delta = 0;
		sb.printf("(%llu) ", delta.to_nsec());
		_last_timestamp = r.timestamp;
	}
''', '''	if (_fields & TIMEDELTA) {
		const timestamp prev = _last_timestamp;
		_last_timestamp = r.timestamp;
		timestamp delta(0);
		if (!(prev == timestamp(0)))
			delta = r.timestamp - prev;
		sb.push_back('(');
		sb.printf("%lu", delta.to_nsec());
		sb.push_back(") ");
	}
''')]),
 ('c29-ref-pairs', ['C29'], 'ok', [(S, '''	switch(_fields & (RING | SEQNUM)) {
	case (RING | SEQNUM):
		sb.printf("%s:%lu ", d.ring_name, r.seqnum);
		break;
	case RING:
		sb.printf("%s ", d.ring_name);
		break;
	case SEQNUM:
		sb.printf("%lu ", r.seqnum);
		break;
	}
''', '''	if (_fields & (RING | SEQNUM)) {
		if (_fields & RING) sb.push_back(d.ring_name);
		if ((_fields & RING) && (_fields & SEQNUM)) sb.push_back(':');
		if (_fields & SEQNUM) sb.printf("%llu", (unsigned long long) r.seqnum);
		sb.push_back(' ');
	}
''')]),
 ('c29-ref-fast', ['C29'], 'ok', [(S, '	else if (_fields == FAST0)\n		fast0_header(sb, rd);\n', '')]),
 ('c29-ref-names', ['C29'], 'ok', [(S, '''		if      (s == "timestamp") _fields |= TIMESTAMP;
		else if (s == "timedelta") _fields |= TIMEDELTA;
		else if (s == "timespec")  _fields |= TIMESPEC;
''', '''		if (s == "timespec") { _fields = _fields | TIMESPEC; continue; }
		if      (s == "timestamp") _fields |= TIMESTAMP;
		else if (s == "timedelta") _fields |= TIMEDELTA;
''')]),
 ('c29-ref-table', ['C29'], 'ok', [(S, '''		if      (s == "timestamp") _fields |= TIMESTAMP;
		else if (s == "timedelta") _fields |= TIMEDELTA;
		else if (s == "timespec")  _fields |= TIMESPEC;
		else if (s == "ring")      _fields |= RING;
		else if (s == "seqnum")    _fields |= SEQNUM;
''', '''		static const struct { const char *n; uint32_t f; } tab[] = { {"timestamp", TIMESTAMP}, {"timedelta", TIMEDELTA}, {"timespec", TIMESPEC}, {"ring", RING}, {"seqnum", SEQNUM} };
		for (const auto &e : tab)
			if (s == e.n) _fields |= e.f;
		if (s.empty()) continue;
''')]),
 ('c29-rawnl', ['C29'], 'V', [(S, '''	do_raw(sb, data, len);
	sb.push_back('\\n');
''', '''	do_raw(sb, data, len);
''')]),
 ('c29-dumpnl', ['C29'], 'V', [(S, '''		if (type == arg::NONE)
			break;

		union { uint64_t u64; int64_t i64; double dbl; } v;
		const uint8_t *data; unsigned int len;
''', '''		if (type == arg::NONE)
			break;
		if (type == arg::XDUMP && i) return;

		union { uint64_t u64; int64_t i64; double dbl; } v;
		const uint8_t *data; unsigned int len;
''')]),
]
