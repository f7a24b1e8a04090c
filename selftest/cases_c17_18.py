F = 'src/output-file.cc'
SWAP = """	pthread_mutex_lock(&_write_mutex);
	_fd   = nfd;
	_size = 0;
	pthread_mutex_unlock(&_write_mutex);
"""
FT = """	ostrbuf_fd osb(ofd, 0, 128);
	_format.footer(osb, _name.c_str());
	osb.flush();
"""
HD = """	ostrbuf_fd nsb(nfd, 0, 128);
	_format.header(nsb, _name.c_str(), false /* not first */);
	nsb.flush();
	if (nsb.failed()) {
		// Failed to write. Retry later.
		close(nfd);
		return;
	}
"""
LOOP = """		while (!_killed && !_rotate_pending)
			pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
		if (_killed)
			break;

		if (_rotate_pending) {
			do_rotate();
			_rotate_pending = false;
		}
"""
WR = """			if (pthread_mutex_trylock(&_rotate_mutex) == 0) {
				_rotate_pending = true;
				pthread_cond_signal(&_rotate_cond);
				pthread_mutex_unlock(&_rotate_mutex);
			}
"""
CASES = [
 ('c17-nolock', ['C17'], 'V', [(F, SWAP, "	_fd   = nfd;\n	_size = 0;\n")]),
 ('c17-ftearly', ['C17'], 'V', [(F, FT, ''), (F, "	// Swap the fd\n", FT)]),
 ('c17-noftflush', ['C17'], 'V', [(F, "	osb.flush();\n", '')]),
 ('c17-hdrlate', ['C17'], 'V', [(F, HD, ''), (F, "	update_link();\n\n	// Generate footer", HD + "	update_link();\n\n	// Generate footer")]),
 ('c17-leak', ['C17'], 'V', [(F, "		// Failed to write. Retry later.\n		close(nfd);\n", '')]),
 ('c17-closenew', ['C17'], 'V', [(F, "	close(ofd);\n", "	close(_fd);\n")]),
 ('c17-noclose', ['C17'], 'V', [(F, "	posix_fadvise(ofd, 0, 0, POSIX_FADV_DONTNEED);\n\n	close(ofd);\n", "	posix_fadvise(ofd, 0, 0, POSIX_FADV_DONTNEED);\n")]),
 ('c17-trunc', ['C17'], 'V', [(F, "int nfd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);", "int nfd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND, _mode);")]),
 ('c17-linkfirst', ['C17'], 'V', [(F, "	// Open a new chunk\n", "	update_link();\n"), (F, "	update_link();\n\n	// Generate footer", "	// Generate footer")]),
 ('c17-linkremove', ['C17'], 'V', [(F, "	rename(link.c_str(), _symlink.c_str());", "	remove(_symlink.c_str());\n	rename(link.c_str(), _symlink.c_str());")]),
 ('c17-wrap', ['C17'], 'V', [(F, "	if (_name_index >= _max_count)\n		_name_index = 0;\n	update_name", "	if (_name_index > _max_count)\n		_name_index = 0;\n	update_name")]),
 ('c17-first', ['C17'], 'V', [(F, "_format.header(nsb, _name.c_str(), false /* not first */)", "_format.header(nsb, _name.c_str(), true)")]),
 ('c17-hdrbuf', ['C17'], 'V', [(F, "	nsb.flush();\n", '')]),
 ('c17-size', ['C17'], 'V', [(F, "	_fd   = nfd;\n	_size = 0;\n", "	_fd   = nfd;\n")]),
 ('c17-ref-helper', ['C17', 'C18'], 'ok', [(F, FT, "	write_footer(ofd);\n"), (F, "void output_file::do_rotate()\n{", "#define write_footer(x) { ostrbuf_fd osb(x, 0, 128); _format.footer(osb, _name.c_str()); osb.flush(); }\nvoid output_file::do_rotate()\n{")]),
 ('c17-ref-wrap', ['C17', 'C18'], 'ok', [(F, "	_name_index++;\n	if (_name_index >= _max_count)\n		_name_index = 0;\n", "	_name_index = (_name_index + 1 < _max_count) ? _name_index + 1 : 0;\n")]),
 ('c17-ref-order', ['C17', 'C18'], 'ok', [(F, "	_fd   = nfd;\n	_size = 0;\n", "	_size = 0;\n	_fd   = nfd;\n")]),
 ('c17-ref-flag', ['C17', 'C18'], 'ok', [(F, """	if (nsb.failed()) {
		// Failed to write. Retry later.
		close(nfd);
		return;
	}
""", """	bool good = !nsb.failed();
	if (!good)
		close(nfd);
	if (!good)
		return;
""")]),
 ('c17-ref-swap', ['C17', 'C18'], 'ok', [(F, "	int ofd = _fd;\n\n	_name_index++", "	int ofd;\n	_name_index++"), (F, "	_fd   = nfd;\n	_size = 0;\n", "	ofd = _fd;\n	_fd   = nfd;\n	_size = 0;\n")]),
 ('c18-lostwake', ['C18'], 'V', [(F, "		while (!_killed && !_rotate_pending)\n			pthread_cond_wait", "		pthread_cond_wait")]),
 ('c18-ifwait', ['C18'], 'V', [(F, "		while (!_killed && !_rotate_pending)\n			pthread_cond_wait", "		if (!_rotate_pending)\n			pthread_cond_wait")]),
 ('c18-clearfirst', ['C18'], 'V', [(F, "		if (_rotate_pending) {\n			do_rotate();\n			_rotate_pending = false;\n		}\n", "		pthread_mutex_unlock(&_rotate_mutex);\n		do_rotate();\n		pthread_mutex_lock(&_rotate_mutex);\n		_rotate_pending = false;\n")]),
 ('c18-nosignal', ['C18'], 'V', [(F, WR, WR.replace("				pthread_cond_signal(&_rotate_cond);\n", ''))]),
 ('c18-locking', ['C18'], 'V', [(F, "if (pthread_mutex_trylock(&_rotate_mutex) == 0) {", "if (pthread_mutex_lock(&_rotate_mutex) == 0) {")]),
 ('c18-pendout', ['C18'], 'V', [(F, WR, "			_rotate_pending = true;\n" + WR.replace("				_rotate_pending = true;\n", ''))]),
 ('c18-gt', ['C18'], 'V', [(F, "_size >= _max_size && !_rotate_pending", "_size == _max_size && !_rotate_pending")]),
 ('c18-sizeset', ['C18'], 'V', [(F, "		_size += n;\n", "		_size = n;\n")]),
 ('c18-dtor', ['C18'], 'V', [(F, "	pthread_mutex_lock(&_rotate_mutex);\n	pthread_cond_signal(&_rotate_cond);\n	pthread_mutex_unlock(&_rotate_mutex);\n	pthread_join", "	pthread_cond_signal(&_rotate_cond);\n	pthread_join")]),
 ('c18-dtorheld', ['C18'], 'V', [(F, "	pthread_mutex_unlock(&_rotate_mutex);\n	pthread_join(_rotate_thread, NULL);\n", "	pthread_join(_rotate_thread, NULL);\n	pthread_mutex_unlock(&_rotate_mutex);\n")]),
 ('c18-failedsize', ['C18'], 'V', [(F, "		// Retry later. Let the writer thread wake us up again.\n", "		_size = 0;\n")]),
 ('c18-ctorclose', ['C18'], 'V', [(F, "		close(_fd);\n		throw", "		throw")]),
 ('c18-swflag', ['C18'], 'V', [(F, "	// Trigger rotation\n	_rotate_pending = true;\n", '')]),
 ('c18-swlock', ['C18'], 'V', [(F, "	pthread_mutex_lock(&_rotate_mutex);\n\n	// Reinit filename bits", "	// Reinit filename bits"), (F, "	pthread_cond_signal(&_rotate_cond);\n\n	pthread_mutex_unlock(&_rotate_mutex);\n", "	pthread_cond_signal(&_rotate_cond);\n")]),
 ('c18-step', ['C18'], 'V', [(F, "	unsigned long long step = 10;", "	unsigned int step = 10;")]),
 ('c18-early', ['C18'], 'V', [(F, "	_running = true;\n\n	pthread_mutex_lock(&_rotate_mutex);\n", "	_running = true;\n	_rotate_pending = false;\n	pthread_mutex_lock(&_rotate_mutex);\n")]),
 ('c18-ref-loop', ['C18', 'C17'], 'ok', [(F, LOOP, """		if (_killed)
			break;
		if (!_rotate_pending) {
			pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
			continue;
		}
		do_rotate();
		_rotate_pending = false;
""")]),
 ('c18-ref-killed', ['C18'], 'ok', [(F, "	_killed = true;\n\n	// Wakeup rotation thread and wait for it to exit\n	pthread_mutex_lock(&_rotate_mutex);\n", "	pthread_mutex_lock(&_rotate_mutex);\n	_killed = true;\n")]),
 ('c18-ref-req', ['C18', 'C17'], 'ok', [(F, "		if (_size >= _max_size && !_rotate_pending) {\n			// Try", "		bool full = _size >= _max_size;\n		if (full && !_rotate_pending) {\n			// Try"), (F, WR, WR.replace("				_rotate_pending = true;\n				pthread_cond_signal(&_rotate_cond);\n", "				pthread_cond_broadcast(&_rotate_cond);\n				_rotate_pending = true;\n"))]),
 ('c18-ref-clearfirst', ['C18', 'C17'], 'ok', [(F, "			do_rotate();\n			_rotate_pending = false;\n", "			_rotate_pending = false;\n			do_rotate();\n")]),
 ('c17-start-find', ['C17'], 'V', [(F, "pos = str.rfind(_name_sufx);", "pos = str.find(_name_sufx);")]),
 ('c17-start-same', ['C17'], 'V', [(F, "	if (++index >= _max_count)\n		index = 0;\n\n	return index;", "	if (index + 1 >= _max_count)\n		index = 0;\n\n	return index;")]),
 ('c17-start-wrap', ['C17'], 'V', [(F, "	if (++index >= _max_count)\n		index = 0;", "	if (++index > _max_count)\n		index = 0;")]),
 ('c17-start-octal', ['C17'], 'V', [(F, "strtoul(str.c_str(), NULL, 10)", "strtoul(str.c_str(), NULL, 0)")]),
 ('c17-start-short', ['C17'], 'V', [(F, "unsigned int len = _symlink.size() + _index_width + 1;", "unsigned int len = _symlink.size() + _index_width;")]),
 ('c17-start-width', ['C17'], 'V', [(F, "	_name_index = read_link();\n	update_name();", "	_name_index = read_link();\n	_name_index &= 0xffff;\n	update_name();")]),
 ('c17-start-range', ['C17'], 'V', [(F, "	if (index >= _max_count) {\n		// Index is", "	if (index > _max_count) {\n		// Index is")]),
 ('ref-c17-start-end', ['C17', 'C18'], 'ok', [(F, "		pos = str.rfind(_name_sufx);\n		if (_name_sufx.size() && pos == str.npos) {", "		pos = str.size() < _name_sufx.size() ? str.npos : str.size() - _name_sufx.size();\n		if (pos == str.npos || str.compare(pos, _name_sufx.size(), _name_sufx) != 0) {")]),
 ('ref-c17-start-mod', ['C17'], 'ok', [(F, "	if (++index >= _max_count)\n		index = 0;\n\n	return index;", "	return (index + 1) % _max_count;")]),
 ('ref-c17-start-pref', ['C17'], 'ok', [(F, "	pos = str.find(_name_pref);\n	if (pos != 0) {", "	if (str.compare(0, _name_pref.size(), _name_pref) != 0) {")]),
]
