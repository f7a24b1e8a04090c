E = 'src/engine.cc'
R = 'src/ringbuf.cc'
T = 'src/timesource.cc'
CASES = [
 ('c26-index', ['C26'], 'V', [(E, '	ring_map::const_iterator it;\n	for (it = _ring_map.begin(); it != _ring_map.end(); ++it) {\n		ringbuf *ring = it->second;\n		ring->timesource(_timesource);\n	}\n', '	for (unsigned int k = 0; k < _ring_index.count; k++) {\n		if (_ring_index(k)->pit.valid())\n			_ring_index(k)->pit.ring()->timesource(_timesource);\n	}\n')]),
 ('c26-unlocked', ['C26'], 'V', [(E, '	pthread_mutex_lock(&_ring_mutex);\n\n	// FIXME: Ideally', '	// FIXME: Ideally'), (E, '	_timesource = ts;\n\n	// Iterate', '	_timesource = ts;\n\n	pthread_mutex_lock(&_ring_mutex);\n	// Iterate')]),
 ('c26-add', ['C26'], 'V', [(E, '	pthread_mutex_lock(&_ring_mutex);\n	nr->timesource(_timesource);\n', '	nr->timesource(_timesource);\n	pthread_mutex_lock(&_ring_mutex);\n')]),
 ('c26-add2', ['C26'], 'V', [(E, '		r->hold();\n		r->timesource(_timesource);\n	}\n	pthread_mutex_unlock(&_ring_mutex);\n', '		r->hold();\n	}\n	pthread_mutex_unlock(&_ring_mutex);\n	if (s.second) r->timesource(_timesource);\n')]),
 ('c26-add3', ['C26'], 'V', [(E, '		r->hold();\n		r->timesource(_timesource);\n', '		r->hold();\n		if (!r->shared()) r->timesource(_timesource);\n')]),
 ('c26-barrier', ['C26'], 'V', [(R, '	barrier::memw();\n\n	_timesource = ts;', '	_timesource = ts;\n	barrier::memw();\n')]),
 ('c26-null', ['C26'], 'V', [(T, '	if (!ts)\n		ts = &default_timesource;\n\n	bool r;', '	bool r;')]),
 ('c26-arg', ['C26'], 'V', [(E, '(timesource *) r->argval[1].u64', '(timesource *) r->argval[0].u64')]),
 ('c26-opt', ['C26'], 'V', [(E, '	if (!_timesource)\n		_timesource = &default_timesource;', '	if (!_opts.timesource)\n		_timesource = opts.timesource;')]),
 ('c26-flushonly', ['C26'], 'V', [(E, '		ring->timesource(_timesource);\n	}\n\n	pthread_mutex_unlock(&_ring_mutex);\n}', '		if (!ring->orphan()) ring->timesource(_timesource);\n	}\n\n	pthread_mutex_unlock(&_ring_mutex);\n}')]),
 ('c26-ref', ['C26', 'C05', 'C07'], 'ok', [(E, '	ring_map::const_iterator it;\n	for (it = _ring_map.begin(); it != _ring_map.end(); ++it) {\n		ringbuf *ring = it->second;\n		ring->timesource(_timesource);\n	}\n', '	for (auto &p : _ring_map)\n		p.second->timesource(ts);\n')]),
]
