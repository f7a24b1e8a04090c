E = 'src/engine.cc'
D = 'src/default-engine.cc'
A = 'src/area.cc'
CASES = [
 ('c25-join', ['C25'], 'V', [(E, '	_killed = true;\n	pthread_join(_thread, NULL);\n', ''), (E, '	delete [] _ring_index.entries;\n\n	dprint("destroyed', '	_killed = true;\n	pthread_join(_thread, NULL);\n	delete [] _ring_index.entries;\n\n	dprint("destroyed')]),
 ('c25-nokill', ['C25'], 'V', [(E, '	_killed = true;\n	pthread_join(_thread, NULL);\n', '	pthread_join(_thread, NULL);\n	_killed = true;\n')]),
 ('c25-drain1', ['C25'], 'V', [(E, 'if (!_ring_index.dirty && !_ring_index.count)', 'if (!_ring_index.count)')]),
 ('c25-drain2', ['C25'], 'V', [(E, 'if (!_ring_index.dirty && !_ring_index.count)', 'if (!_ring_index.dirty && _ring_index.count <= 1)')]),
 ('c25-nodrain', ['C25'], 'V', [(E, '	drain_rings();\n\n	dprint', '	if (_ring_index.dirty) drain_rings();\n\n	dprint')]),
 ('c25-rel', ['C25'], 'V', [(D, '	default_ring.release();\n\n	delete default_engine;\n', '	delete default_engine;\n	default_ring.release();\n')]),
 ('c25-act', ['C25'], 'V', [(D, '!default_ring.immortal() || !default_ring.shared()', '!default_ring.immortal() && !default_ring.shared()')]),
 ('c25-act2', ['C25'], 'V', [(D, '	default_ring.hold();\n\n	// Register default shared ringbuf\n	e->add_ring(&default_ring);\n', '	e->add_ring(&default_ring);\n	default_ring.hold();\n')]),
 ('c25-again', ['C25'], 'V', [(D, '	delete default_engine;\n	default_engine = 0;\n', '	delete default_engine;\n')]),
 ('c25-start', ['C25'], 'V', [(E, '	_mask = opts.default_mask;\n	add_internal_area();\n', ''), (E, '		throw std::runtime_error("hogl::engine: failed to create engine thread");\n	}\n', '		throw std::runtime_error("hogl::engine: failed to create engine thread");\n	}\n	_mask = opts.default_mask;\n	add_internal_area();\n')]),
 ('c25-leftover', ['C25'], 'V', [(E, '		_tso_leftover = 0;\n	}\n\n	memset', '	}\n\n	memset')]),
 ('c25-area', ['C25'], 'V', [(A, '		for (i=0; i < _bitmap.size(); ++i)\n			free((void *) _section[i]);\n', '		for (i=1; i < _bitmap.size(); ++i)\n			free((void *) _section[i]);\n')]),
 ('c25-ref', ['C25', 'C08'], 'ok', [(E, '	while (1) {\n		process_rings();\n\n		// We can exit once we have no rings in the index\n		if (!_ring_index.dirty && !_ring_index.count)\n			break;\n\n		usleep(_opts.polling_interval_usec);\n	}\n', '	bool done;\n	do {\n		process_rings();\n		done = !_ring_index.count && !_ring_index.dirty;\n		if (!done)\n			usleep(_opts.polling_interval_usec);\n	} while (!done);\n'), (E, '	for (area_map::iterator it = _area_map.begin(); it != _area_map.end(); ++it) {\n		area *a = it->second;\n		delete a;\n	}\n\n	delete [] _ring_index.entries;\n', '	delete [] _ring_index.entries;\n	for (auto &p : _area_map)\n		delete p.second;\n')]),
]
