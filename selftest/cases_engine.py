E = 'src/engine.cc'
T = 'include/hogl/detail/tsobuf.hpp'
R = 'include/hogl/detail/ringbuf.hpp'
CASES = [
 ('c07-early', ['C07'], 'V', [(E, '\t\twhile ((r = it.next()))\n\t\t\tflush_record(i, r);\n\t\tit.commit();', '\t\twhile ((r = it.next())) {\n\t\t\tit.commit();\n\t\t\tflush_record(i, r);\n\t\t}')]),
 ('c07-special', ['C07'], 'V', [(E, '\t\t_ring_index(i)->lastrec = r;\n\t\t_ring_index(i)->seqnum', '\t\tif (!r->special())\n\t\t\t_ring_index(i)->lastrec = r;\n\t\t_ring_index(i)->seqnum')]),
 ('c07-rewind', ['C07', 'C06'], 'V', [(E, '\t\tit.rewind(_ring_index(i)->lastrec);\n', '')]),
 ('c07-reset', ['C07'], 'V', [(E, '\t\thogl::timestamp tso_ts = 0;\n\n\t\tit.reset();', '\t\thogl::timestamp tso_ts = 0;\n')]),
 ('c07-skip', ['C07'], 'V', [(E, '\t\twhile ((r = it.next()))\n', '\t\tif (it.ring()->orphan())\n\t\t\tit.next();\n\t\twhile ((r = it.next()))\n')]),
 ('c07-orphan', ['C07'], 'V', [(E, '\t\tif (!ring->orphan() || !ring->empty()) {\n', '\t\tif (!ring->orphan()) {\n'), (E, '\t\t// Only empty rings are killed.\n\t\tif (hogl_unlikely(it.ring()->orphan() && it.ring()->empty()))\n\t\t\tkill_orphan(i, it.ring());\n\t}\n\n\tflush_tso();', '\t\tif (hogl_unlikely(it.ring()->orphan()))\n\t\t\tkill_orphan(i, it.ring());\n\t}\n\n\tflush_tso();')]),
 ('c07-lastrec', ['C07'], 'ok', [(E, '\t\t_ring_index(i)->lastrec = 0;\n\t}', '\t}')]),
 ('c07-noflush', ['C07'], 'V', [(E, '\t// Flush output buffers\n\t_output.flush();', '\t// Flush output buffers\n\tif (!(_opts.features & DISABLE_TSO))\n\t\t_output.flush();')]),
 ('c07-tag', ['C07'], 'V', [(E, '\t\tunsigned int i = te.tag;\n', '\t\tunsigned int i = te.tag & 1;\n')]),
 ('c07-size', ['C07', 'C06'], 'V', [(E, '\t_tso_leftover = _tso.size();\n', '\t_tso_leftover = _tso.size() / 2;\n')]),
 ('c07-ref', ['C06', 'C07', 'C09', 'C04', 'C05', 'C02', 'C01'], 'ok', [(E, '''	// Commit all changes
	for (i = 0; i < _ring_index.count; i++) {
		ringbuf::pop_iterator &it = _ring_index(i)->pit;
		if (hogl_unlikely(!it.valid()))
			continue;
''', '''	// Commit all changes
	for (unsigned int k = _ring_index.count; k > 0; k--) {
		i = k - 1;
		ringbuf::pop_iterator &it = _ring_index(i)->pit;
		if (hogl_unlikely(!it.valid()))
			continue;
'''), (E, '\t\twhile ((r = it.next()))\n\t\t\tflush_record(i, r);\n', '\t\tfor (r = it.next(); r != 0; r = it.next()) {\n\t\t\tflush_record(i, r);\n\t\t}\n')]),
 ('c06-le', ['C06'], 'V', [(E, 'te.timestamp <= tso_ts', 'te.timestamp < tso_ts')]),
 ('c06-less', ['C06'], 'V', [(T, 'i.timestamp < j.timestamp', 'i.timestamp > j.timestamp')]),
 ('c06-nosort', ['C06'], 'V', [(E, '\t_tso.sort();\n\n\ttsobuf::entry te;', '\tif (size > 1)\n\t\t_tso.sort();\n\n\ttsobuf::entry te;')]),
 ('c06-skipsort', ['C06', 'C07'], 'ok', [(E, '\t_tso.sort();\n\n\ttsobuf::entry te;', '\tif (_tso.size() > 1)\n\t\t_tso.sort();\n\n\ttsobuf::entry te;')]),
 ('c06-full', ['C06'], 'V', [(T, 'return _tail == _capacity;', 'return _tail > _capacity;')]),
 ('c06-flip', ['C06'], 'V', [(T, 's * sizeof(entry));\n\t\t_head', '_head * sizeof(entry));\n\t\t_head')]),
 ('c06-mark', ['C06'], 'V', [(E, '\tif (_internal_area->test(internal::TSOFULLMARK)) {', '\tif (!_tso_leftover && _internal_area->test(internal::TSOFULLMARK) && size > 1) {')]),
 ('c06-sortrange', ['C06'], 'V', [(T, 'std::sort(_entry + _head, _entry + _tail, _less)', 'std::sort(_entry + _head, _entry + _tail - 1, _less)')]),
 ('c06-ref', ['C06', 'C07'], 'ok', [(T, 'return i.timestamp < j.timestamp;', 'return j.timestamp > i.timestamp;'), (T, '\t\tunsigned int s = size();\n\t\tmemmove(static_cast<void*>(_entry), _entry + _head, s * sizeof(entry));', '\t\tconst unsigned int s = size();\n\t\tfor (unsigned int k = 0; k < s; k++)\n\t\t\t_entry[k] = _entry[_head + k];')]),
 ('c06-stable', ['C06'], 'ok', [(T, 'std::sort(_entry', 'std::stable_sort(_entry')]),
 ('c09-lastrec', ['C09'], 'V', [(E, '\t\tif (!_ring_index(i)->lastrec) {\n\t\t\tit.ring()->unblock();\n\t\t\tcontinue;', '\t\tif (!_ring_index(i)->lastrec) {\n\t\t\tcontinue;')]),
 ('c09-order', ['C09'], 'V', [(E, '\t\tit.commit();\n\t\tit.ring()->unblock();', '\t\tit.ring()->unblock();\n\t\tit.commit();')]),
 ('c09-announce', ['C09'], 'V', [(R, '\t\tpthread_mutex_lock(&_block_mutex);\n\t\t_block_active = true;\n', '\t\t_block_active = true;\n\t\tpthread_mutex_lock(&_block_mutex);\n')]),
 ('c09-clear', ['C09'], 'V', [(R, '\t\tif (hogl_unlikely(_block_active)) {\n\t\t\tpthread_mutex_lock(&_block_mutex);\n\t\t\tpthread_cond_signal(&_block_cond);\n\t\t\t_block_active = false;\n', '\t\tif (hogl_unlikely(_block_active)) {\n\t\t\t_block_active = false;\n\t\t\tpthread_mutex_lock(&_block_mutex);\n\t\t\tpthread_cond_signal(&_block_cond);\n')]),
 ('c09-orphan', ['C09'], 'V', [(R, '\t\tif (hogl_unlikely(_block_active)) {\n\t\t\tpthread_mutex_lock', '\t\tif (hogl_unlikely(_block_active && size() < 2)) {\n\t\t\tpthread_mutex_lock')]),
 ('c09-ref', ['C09', 'C01', 'C07'], 'ok', [(R, '\t\t\tpthread_cond_signal(&_block_cond);\n\t\t\t_block_active = false;\n', '\t\t\t_block_active = false;\n\t\t\tpthread_cond_broadcast(&_block_cond);\n')]),
]
