E = 'src/engine.cc'
A = 'src/area.cc'
H = 'include/hogl/detail/area.hpp'
B = 'include/hogl/detail/bitmap.hpp'
CASES = [
 ('c27-late', ['C27'], 'V', [(E, '	if (s.second)\n		_mask.apply(a);\n	pthread_mutex_unlock(&_area_mutex);\n', '	pthread_mutex_unlock(&_area_mutex);\n	if (s.second) {\n		pthread_mutex_lock(&_area_mutex);\n		_mask.apply(a);\n		pthread_mutex_unlock(&_area_mutex);\n	}\n')]),
 ('c27-existing', ['C27'], 'V', [(E, '	if (s.second)\n		_mask.apply(a);\n', '	_mask.apply(a);\n')]),
 ('c27-leak', ['C27'], 'V', [(E, '	delete na;\n\n	if (reuse)\n		return a;', '	if (reuse)\n		return a;\n	delete na;\n')]),
 ('c27-prefix', ['C27'], 'V', [(A, '	if (size() != area.size())\n		return false;\n', '	if (size() > area.size())\n		return false;\n')]),
 ('c27-first', ['C27'], 'V', [(A, '	for (i=0; i < _bitmap.size(); ++i)\n		if (strcmp(', '	for (i=1; i < _bitmap.size(); ++i)\n		if (strcmp(')]),
 ('c27-copy', ['C27'], 'V', [(A, '			_section[i] = strdup(section[i]);', '			_section[i] = section[i];')]),
 ('c27-lookup', ['C27'], 'V', [(H, '		if (i >= _bitmap.size())\n', '		if (i > _bitmap.size())\n')]),
 ('c27-zero', ['C27'], 'V', [(B, '	void reset()\n	{\n		memset(_data, 0, nbytes(_size));', '	void reset()\n	{\n		memset(_data, 0, _size / byte_size);')]),
 ('c27-wrong', ['C27'], 'V', [(E, '	if (reuse)\n		return a;\n', '	if (reuse || !sections)\n		return a;\n	if (a->count() >= 2) return a;\n')]),
 ('c27-free', ['C27'], 'V', [(A, '		for (i=0; i < _bitmap.size(); ++i)\n			free((void *) _section[i]);\n		delete [] _section;', '		for (i=0; i < _bitmap.size(); ++i)\n			free((void *) _section[i]);')]),
 ('c27-ref', ['C27', 'C10'], 'ok', [(E, '''	bool reuse = (*na == *a);
	delete na;

	if (reuse)
		return a;
''', '''	if (*a == *na) {
		delete na;
		return a;
	}
	delete na;
'''), (E, '	if (s.second)\n		_mask.apply(a);\n	pthread_mutex_unlock(&_area_mutex);\n', '	const bool added = s.second;\n	if (added)\n		_mask.apply(*na);\n	pthread_mutex_unlock(&_area_mutex);\n'), (A, '	unsigned int i;\n	for (i=0; i < _bitmap.size(); ++i)\n		if (strcmp(_section[i], area._section[i]))\n			return false;\n	return true;', '	bool same = true;\n	for (unsigned int k = count(); same && k > 0; k--)\n		same = !strcmp(section_name(k - 1), area.section_name(k - 1));\n	return same;')]),
 ('c27-ref2', ['C27'], 'ok', [(E, '	area *a, *na = new area(name, sections);\n\n	pthread_mutex_lock(&_area_mutex);\n	s = _area_map.insert(area_map::value_type(name, na));\n', '	area *a, *na = new area(name, sections);\n\n	pthread_mutex_lock(&_area_mutex);\n	_mask.apply(na);\n	s = _area_map.insert(area_map::value_type(name, na));\n'), (E, '	if (s.second)\n		_mask.apply(a);\n	pthread_mutex_unlock(&_area_mutex);\n', '	pthread_mutex_unlock(&_area_mutex);\n')]),
]
