E = 'src/engine.cc'
R = 'include/hogl/detail/ringbuf.hpp'
T = 'src/tls.cc'
C = 'include/hogl/detail/refcount.hpp'
CASES = [
 ('c08-recheck', ['C08'], 'V', [(E, '		if (!ring->orphan() || !ring->empty()) {\n			pthread_mutex_unlock(&_ring_mutex);\n			return;\n		}\n', '')]),
 ('c08-recheck2', ['C08'], 'V', [(E, '		if (!ring->orphan() || !ring->empty()) {\n', '		if (!ring->orphan()) {\n')]),
 ('c08-holdlate', ['C08'], 'V', [(E, '		r = it->second;\n		r = r->hold();\n	}\n	pthread_mutex_unlock(&_ring_mutex);\n	return r;', '		r = it->second;\n	}\n	pthread_mutex_unlock(&_ring_mutex);\n	if (r)\n		r = r->hold();\n	return r;')]),
 ('c08-addhold', ['C08'], 'V', [(E, '	ringbuf *r = s.first->second->hold();\n	pthread_mutex_unlock(&_ring_mutex);\n\n	if (s.second == true) {', '	ringbuf *r = s.first->second;\n	pthread_mutex_unlock(&_ring_mutex);\n	r->hold();\n\n	if (s.second == true) {')]),
 ('c08-reuse', ['C08'], 'V', [(E, 'if (r->reusable() && r->refcnt() == 2)', 'if (r->reusable() && r->refcnt() <= 3)')]),
 ('c08-leak', ['C08'], 'V', [(E, '	// Drop the local reference.\n	r->release();\n	return 0;', '	return 0;')]),
 ('c08-immortal', ['C08'], 'V', [(R, '		if (!immortal())\n			delete this;', '		if (!immortal() || !shared())\n			delete this;')]),
 ('c08-tlspost', ['C08'], 'V', [(T, '	r->release();\n}\n\n#if', '	r->release();\n	hogl::post(_engine->internal_area(), internal::TLS_DEBUG, "gone %s", r->name());\n}\n\n#if')]),
 ('c08-tlsprev', ['C08'], 'V', [(T, '	_previous_ring->release();\n', '')]),
 ('c08-tlsfail', ['C08'], 'V', [(T, '		// tls.valid() if strict error checking is required.\n		return;', '		// tls.valid() if strict error checking is required.\n		_previous_ring = _ring->hold();\n		return;')]),
 ('c08-engrel', ['C08'], 'V', [(E, '		ringbuf *r = it->second;\n		r->release();', '		ringbuf *r = it->second;\n		if (!r->shared())\n			r->release();')]),
 ('c08-dump', ['C08'], 'V', [(E, '			s << *ring;\n			ring->release();', '			s << *ring;\n			if (!ring->shared())\n				ring->release();')]),
 ('c08-addr', ['C08'], 'V', [(E, '		_ring_index.dirty = true;\n		r->hold();\n		r->timesource(_timesource);\n	}\n	pthread_mutex_unlock(&_ring_mutex);', '		_ring_index.dirty = true;\n		r->timesource(_timesource);\n	}\n	pthread_mutex_unlock(&_ring_mutex);\n	if (s.second)\n		r->hold();\n')]),
 ('c08-ref1', ['C08', 'C07', 'C10'], 'ok', [(E, '		if (!ring->orphan() || !ring->empty()) {\n			pthread_mutex_unlock(&_ring_mutex);\n			return;\n		}\n\n		_ring_map.erase(ring->name());\n\n		// Invalidate index. It will be rebuilt next time we\n		// enter this loop.\n		_ring_index(i)->pit.invalidate();\n		_ring_index.dirty = true;\n\n		pthread_mutex_unlock(&_ring_mutex);\n\n		ring->release();', '		bool kill = ring->orphan() && ring->empty();\n		if (kill) {\n			_ring_index.dirty = true;\n			_ring_index(i)->pit.invalidate();\n			ring_map::iterator it = _ring_map.find(ring->name());\n			_ring_map.erase(it);\n		}\n		pthread_mutex_unlock(&_ring_mutex);\n		if (kill)\n			ring->release();')]),
 ('c08-ref2', ['C08', 'C10'], 'ok', [(E, '	ringbuf *nr = new ringbuf(name, opts);\n	nr->hold();\n\n	pthread_mutex_lock(&_ring_mutex);\n	nr->timesource(_timesource);\n	s = _ring_map.insert(ring_map::value_type(name, nr));\n	ringbuf *r = s.first->second->hold();\n	pthread_mutex_unlock(&_ring_mutex);\n', '	ringbuf *nr = new ringbuf(name, opts);\n\n	pthread_mutex_lock(&_ring_mutex);\n	nr->hold();\n	nr->timesource(_timesource);\n	s = _ring_map.insert(ring_map::value_type(name, nr));\n	ringbuf *r = s.first->second;\n	r->hold();\n	pthread_mutex_unlock(&_ring_mutex);\n'), (T, '	_ring = _previous_ring;\n\n	// release the reference to the previous ring\n	_previous_ring->release();\n\n	ringbuf *r = _current_ring;', '	ringbuf *r = _current_ring, *p = _previous_ring;\n	_ring = p;\n	p->release();\n')]),
]
