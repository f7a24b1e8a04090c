E = 'src/engine.cc'
OF = 'src/output-file.cc'
CASES = [
 ('c10-find', ['C10'], 'V', [(E, '\tpthread_mutex_lock(&_area_mutex);\n\tarea_map::const_iterator it = _area_map.find(name);\n\tif (it != _area_map.end())\n\t\ta = it->second;\n\tpthread_mutex_unlock(&_area_mutex);', '\tarea_map::const_iterator it = _area_map.find(name);\n\tif (it != _area_map.end())\n\t\ta = it->second;')]),
 ('c10-wrong', ['C10'], 'V', [(E, 'void engine::apply_mask(const mask &m)\n{\n\tpthread_mutex_lock(&_area_mutex);', 'void engine::apply_mask(const mask &m)\n{\n\tpthread_mutex_lock(&_ring_mutex);'), (E, '\tpthread_mutex_unlock(&_area_mutex);\n}\n\nmask engine', '\tpthread_mutex_unlock(&_ring_mutex);\n}\n\nmask engine')]),
 ('c10-early', ['C10'], 'V', [(E, '\tif (it != _ring_map.end()) {\n\t\tr = it->second;', '\tif (it == _ring_map.end()) return 0;\n\t{\n\t\tr = it->second;')]),
 ('c10-mask', ['C10'], 'V', [(E, '\tmask m = _mask;\n\tpthread_mutex_unlock(&_area_mutex);', '\tpthread_mutex_unlock(&_area_mutex);\n\tmask m = _mask;')]),
 ('c10-nested', ['C10'], 'V', [(E, 'void engine::apply_mask(const mask &m)\n{\n\tpthread_mutex_lock(&_area_mutex);', 'void engine::apply_mask(const mask &m)\n{\n\tpthread_mutex_lock(&_area_mutex);\n\tget_mask();')]),
 ('c10-guard', ['C10', 'C08'], 'ok', [(E, '\tpthread_mutex_lock(&_area_mutex);\n\tmask m = _mask;\n\tpthread_mutex_unlock(&_area_mutex);\n\treturn m;', '\tstruct guard { pthread_mutex_t *m; guard(pthread_mutex_t *x) : m(x) { pthread_mutex_lock(m); } ~guard() { pthread_mutex_unlock(m); } } g(&_area_mutex);\n\treturn _mask;')]),
]
