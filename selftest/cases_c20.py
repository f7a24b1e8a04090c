"""C20: recovery tool"""
E_, C_, H_ = 'tools/recovery-engine.cc', 'tools/coredump.cc', 'tools/recovery-engine.hpp'
CASES = [
 ('c20-remap-wrap', ['C20'], 'V', [(C_, 'if (offset < s->size && n <= s->size - offset)', 'if (offset < s->size && start + n <= s->vma + s->size)')]),
 ('ref-c20-remap-edge', ['C20'], 'ok', [(C_, 'if (offset < s->size && n <= s->size - offset)', 'if (offset <= s->size && n <= s->size - offset)')]),
 ('c20-remap-nosize', ['C20'], 'V', [(C_, 'if (offset < s->size && n <= s->size - offset)', 'if (offset < s->size)')]),
 ('c20-remap-first', ['C20'], 'V', [(C_, '		// Note that adding n to the pointer could wrap around\n', '		if (it != sections.begin()) break;\n')]),
 ('c20-str-size', ['C20'], 'V', [(C_, "memchr(s->addr + offset, '\\0', s->size - offset))", "memchr(s->addr + offset, '\\0', s->size))")]),
 ('c20-str-nocheck', ['C20'], 'V', [(C_, "if (offset < s->size && memchr(s->addr + offset, '\\0', s->size - offset))", "if (offset < s->size)")]),
 ('c20-sticky', ['C20'], 'V', [(C_, '	this->failed = prev_failed;', '	this->failed = false;')]),
 ('c20-sticky2', ['C20'], 'V', [(C_, '	this->failed = true;\n\n	s->alloc();', '	s->alloc();')]),
 ('c20-partial', ['C20'], 'V', [(C_, '			fmt::fprintf(stderr, "error: section with vma 0x%lu not found\\n", vma);\n			return;', '			fmt::fprintf(stderr, "error: section with vma 0x%lu not found\\n", vma);\n			break;')]),
 ('c20-load-addr', ['C20'], 'V', [(C_, '		addr += ss;\n', '')]),
 ('c20-load-large', ['C20'], 'V', [(C_, '		if (ss > size) {', '		if (ss > s->size) {')]),
 ('c20-coalesce-bfd', ['C20'], 'V', [(C_, 'if (s->abfd == abfd && s->vma == end) {', 'if (s->vma == end) {')]),
 ('c20-coalesce-gap', ['C20'], 'V', [(C_, 'if (s->abfd == abfd && s->vma == end) {', 'if (s->abfd == abfd && s->vma >= end) {')]),
 ('c20-coalesce-last', ['C20'], 'V', [(C_, '	if (start) {\n		// Flush', '	if (start && nset.empty()) {\n		// Flush')]),
 ('c20-bitmap', ['C20'], 'V', [(E_, '		if (!bitmap_validator::fixup(core, &a->_bitmap))\n			return 0;\n', '')]),
 ('c20-bitmap-null', ['C20'], 'V', [(E_, '		if (!b->_data)\n			return false;\n', '')]),
 ('c20-magic', ['C20'], 'V', [(E_, '		if (memcmp(&a->_magic, &hogl::area_magic, sizeof(hogl::magic)))\n			return 0;\n', '')]),
 ('c20-area-size', ['C20'], 'V', [(E_, '_core.remap(ptr, sizeof(hogl::area))', '_core.remap(ptr, sizeof(hogl::magic))')]),
 ('c20-area-table', ['C20'], 'V', [(E_, 'core.remap(a->_section, sizeof(char *) * a->count())', 'core.remap(a->_section, a->count())')]),
 ('c20-area-inplace', ['C20'], 'V', [(E_, '		a->_section = new const char* [a->count()];\n', '		a->_section = section;\n'), (E_, '				delete [] a->_section;\n', '')]),
 ('c20-area-name', ['C20'], 'V', [(E_, '		a->_name = core.remap_str(a->_name);', '		a->_name = (char *) core.remap(a->_name, 1);')]),
 ('c20-area-na', ['C20'], 'V', [(E_, '			a->_section[i]="NA";\n', '')]),
 ('c20-area-default', ['C20'], 'V', [(E_, 'if (i == 0 && a->count() == 6) {', 'if (i == 0) {')]),
 ('c20-area-default2', ['C20'], 'V', [(E_, 'if (i == 0 && a->count() == 6) {', 'if (a->count() == 6) {')]),
 ('c20-area-map', ['C20'], 'V', [(E_, '	_areas.insert(area_map::value_type((uint64_t) ptr, a));', '	if (!a) _areas.insert(area_map::value_type((uint64_t) ptr, a));')]),
 ('c20-ts-size', ['C20'], 'V', [(E_, '_core.remap(ptr, sizeof(hogl::timesource))', '_core.remap(ptr, 1)')]),
 ('c20-ts-null', ['C20'], 'V', [(E_, '	static timesource* fixup(coredump &core, void *ptr)\n	{\n		if (!ptr)\n			return 0;\n', '	static timesource* fixup(coredump &core, void *ptr)\n	{\n')]),
 ('c20-ring-shift', ['C20'], 'V', [(E_, '		if (r->_rec_shift > 20)\n			return false;\n', '')]),
 ('c20-ring-small', ['C20'], 'V', [(E_, 'r->record_size() < sizeof(record) || ', '')]),
 ('c20-ring-tail', ['C20'], 'V', [(E_, 'if (r->_head > r->_capacity || r->_tail > r->_capacity)', 'if (r->_head > r->_capacity)')]),
 ('c20-ring-head', ['C20'], 'V', [(E_, 'if (r->_head > r->_capacity || r->_tail > r->_capacity)', 'if (r->_tail > r->_capacity + 1)')]),
 ('c20-ring-pow2', ['C20'], 'V', [(E_, 'if (!r->capacity() || (r->_capacity & r->capacity()))', 'if (!r->capacity())')]),
 ('c20-ring-cap0', ['C20'], 'V', [(E_, 'if (!r->capacity() || (r->_capacity & r->capacity()))', 'if (r->_capacity & r->capacity())')]),
 ('c20-ring-int', ['C20'], 'V', [(E_, '(unsigned long) r->record_size() * r->capacity()', '(unsigned long) r->record_size() * r->_capacity')]),
 ('c20-ring-name', ['C20'], 'V', [(E_, 'if (!r->_name || !r->_rec_top)', 'if (!r->_rec_top)')]),
 ('c20-ring-top', ['C20'], 'V', [(E_, 'if (!r->_name || !r->_rec_top)', 'if (!r->_name)')]),
 ('c20-all-reset', ['C20'], 'V', [(E_, '			r->_tail = r->_head;\n', '			r->_head = 0;\n			r->_tail = r->_capacity;\n')]),
 ('c20-all-always', ['C20'], 'V', [(E_, '		if (reset) {', '		if (!reset) {')]),
 ('c20-gstr-15', ['C20'], 'V', [(E_, '		for (i=0; i < record::NARGS; i++) {\n			unsigned int type', '		for (i=0; i + 1 < record::NARGS; i++) {\n			unsigned int type')]),
 ('c20-gstr-none', ['C20'], 'V', [(E_, '			switch (type) {\n			case arg::GSTR:', '			if (type == arg::NONE) break;\n			switch (type) {\n			case arg::GSTR:')]),
 ('c20-gstr-skip', ['C20'], 'V', [(E_, '			case arg::CSTR:\n			case arg::XDUMP:\n			case arg::RAW:\n', '			case arg::CSTR:\n			case arg::RAW:\n')]),
 ('c20-data-room', ['C20'], 'V', [(E_, 'unsigned int room = ring->record_size() - record::header_size();', 'unsigned int room = ring->record_size();')]),
 ('c20-data-sum', ['C20'], 'V', [(E_, 'if (r->argval[i].data.offset > room || len > room - r->argval[i].data.offset)', 'if (r->argval[i].data.offset + len > room)')]),
 ('c20-data-off', ['C20'], 'V', [(E_, 'if (r->argval[i].data.offset > room || len > room - r->argval[i].data.offset)', 'if (len > room - r->argval[i].data.offset)')]),
 ('c20-data-strict', ['C20'], 'V', [(E_, 'if (r->argval[i].data.offset > room || len > room - r->argval[i].data.offset)', 'if (r->argval[i].data.offset > room || len >= room - r->argval[i].data.offset)')]),
 ('c20-cstr-nul', ['C20'], 'V', [(E_, 'else if (type == arg::CSTR && len && (len == room - r->argval[i].data.offset || data[len]))', 'else if (type == arg::CSTR && len && len == room - r->argval[i].data.offset)')]),
 ('c20-cstr-edge', ['C20'], 'V', [(E_, 'else if (type == arg::CSTR && len && (len == room - r->argval[i].data.offset || data[len]))', 'else if (type == arg::CSTR && len && data[len])')]),
 ('c20-special-clamp', ['C20'], 'V', [(E_, 'std::min(r->argtype, (uint64_t) special_area.size() - 1)', 'r->argtype')]),
 ('c20-special-types', ['C20'], 'V', [(E_, '			r->argtype = 0;\n', '')]),
 ('c20-special-area', ['C20'], 'V', [(E_, '			r->area = &special_area;\n', '')]),
 ('c20-special-skip', ['C20'], 'V', [(E_, '			r->argtype = 0;\n			continue;', '			r->argtype = 0;\n			break;')]),
 ('c20-scan-one', ['C20'], 'V', [(E_, '				_rings.push_back(ring);\n', '				_rings.push_back(ring);\n				break;\n')]),
 ('c20-scan-skip', ['C20'], 'V', [(E_, '				// Validation failed.\n				// Advance by one byte and continue scanning.\n				ptr += 1;\n			}\n			size = s->size - (ptr - s->addr);\n		}\n	}\n}\n\nvoid recovery_engine::find_and_fixup_outbufs', '				// Validation failed.\n				ptr += sizeof(hogl::ringbuf);\n			}\n			size = s->size - (ptr - s->addr);\n		}\n	}\n}\n\nvoid recovery_engine::find_and_fixup_outbufs')]),
 ('c20-scan-inside', ['C20'], 'V', [(E_, '			if (!s->inside(ptr, sizeof(hogl::ringbuf)))\n				break;\n', '')]),
 ('c20-scan-size', ['C20'], 'V', [(E_, '		while (size >= sizeof(hogl::ringbuf)) {', '		while (size > sizeof(hogl::ringbuf)) {')]),
 ('c20-set', ['C20'], 'V', [(H_, 'typedef std::multiset<record_entry, record_sorter> record_set;', 'typedef std::set<record_entry, record_sorter> record_set;')]),
 ('c20-less', ['C20'], 'V', [(H_, 'return r0.rec->timestamp < r1.rec->timestamp;', 'return r1.rec->timestamp < r0.rec->timestamp;')]),
 ('c20-less-signed', ['C20'], 'V', [(H_, 'return r0.rec->timestamp < r1.rec->timestamp;', 'return (long long) (uint64_t) r0.rec->timestamp < (long long) (uint64_t) r1.rec->timestamp;')]),
 ('c20-less-diff', ['C20'], 'V', [(H_, 'return r0.rec->timestamp < r1.rec->timestamp;', 'return (int) ((uint64_t) r0.rec->timestamp - (uint64_t) r1.rec->timestamp) < 0;')]),
 ('c20-ringname', ['C20'], 'V', [(E_, 'd.ring_name = re.ring->name();', 'd.ring_name = _rings.front()->name();')]),
 ('c20-out-size', ['C20'], 'V', [(E_, '		if (s->_size > s->_capacity)\n			return 0;\n', '')]),
 ('c20-out-map', ['C20'], 'V', [(E_, 's->_data = (uint8_t *) core.remap(s->_data, s->_capacity);', 's->_data = (uint8_t *) core.remap(s->_data, s->_size ? s->_size : 1);')]),
 ('c20-out-n', ['C20'], 'V', [(E_, 'size_t n = all ? _capacity : _size;', 'size_t n = _capacity;')]),
 ('c20-out-null', ['C20'], 'V', [(E_, '	static ostrbuf* fixup(coredump &core, void *ptr)\n	{\n		if (!ptr)\n			return 0;\n', '	static ostrbuf* fixup(coredump &core, void *ptr)\n	{\n')]),
 # behaviour preserving
 ('ref-c20-loop', ['C20'], 'ok', [(E_, '		ringbuf::pop_iterator pit(*ring_it);\n		record *r;\n		while ((r = pit.next()))\n			_records.insert(record_entry(pit.ring(), r));', '		ringbuf *ring = *ring_it;\n		ringbuf::pop_iterator pit(ring);\n		for (record *r = pit.next(); r != 0; r = pit.next()) {\n			record_entry e(ring, r);\n			_records.insert(e);\n		}')]),
 ('ref-c20-remap', ['C20'], 'ok', [(C_, '		if (offset < s->size && n <= s->size - offset)\n			return s->addr + offset;\n', '		if (offset >= s->size || s->size - offset < n)\n			continue;\n		return &s->addr[offset];\n')]),
 ('ref-c20-helper', ['C20'], 'ok', [(E_, '// Validate and fixup records.', 'static bool data_inside(const record *r, unsigned int i, unsigned int room)\n{\n	unsigned int len;\n	r->get_arg_data(i, len);\n	uint32_t off = r->argval[i].data.offset;\n	return off <= room && len <= room - off;\n}\n\n// Validate and fixup records.'), (E_, 'if (r->argval[i].data.offset > room || len > room - r->argval[i].data.offset)', 'if (!data_inside(r, i, room))')]),
 ('ref-c20-order', ['C20'], 'ok', [(E_, "		if (r->dropcnt() > r->seqnum())\n			return false;\n\n		if (r->prio() > r->PRIORITY_CEILING)\n			return false;\n", "		if (r->prio() > r->PRIORITY_CEILING || r->dropcnt() > r->seqnum())\n			return false;\n")]),
 ('ref-c20-min', ['C20'], 'ok', [(E_, 'r->section = std::min(r->argtype, (uint64_t) special_area.size() - 1);', 'uint64_t last = special_area.size() - 1;\n			r->section = r->argtype < last ? r->argtype : last;')]),
 ('ref-c20-load', ['C20'], 'ok', [(C_, '		addr += ss;\n		size -= ss;\n		vma  += ss;', '		vma  += ss;\n		size  = size - ss;\n		addr  = addr + ss;')]),
 ('ref-c20-less', ['C20'], 'ok', [(H_, 'return r0.rec->timestamp < r1.rec->timestamp;', 'const record *a = r0.rec, *b = r1.rec;\n			return b->timestamp > a->timestamp;')]),
]
