H = 'include/hogl/detail/ostrbuf.hpp'
FD = 'src/ostrbuf-fd.cc'
ST = 'src/ostrbuf-stdio.cc'
TE = 'src/ostrbuf-tee.cc'
OB = 'src/ostrbuf.cc'
OF = 'src/output-file.cc'
NU = 'include/hogl/detail/ostrbuf-null.hpp'
WA = """		total += r;
		done  += r;

		// Skip completed entries
		while (iovcnt > 0 && done >= iov->iov_len) {
			done -= iov->iov_len;
			iov++; iovcnt--;
		}

		// No progress. Must be a broken device, let's not spin here.
		if (r == 0 && iovcnt > 0) {
			errno = EIO;
			return -1;
		}
"""
WB = """		if (done)
			r = ::write(fd, (const uint8_t *) iov->iov_base + done, iov->iov_len - done);
		else
			r = ::writev(fd, iov, iovcnt);
"""
FB = """	struct iovec iov[2];
	unsigned int i = 0;

	// Flush buffered data
	if (_size) {
		iov[i].iov_base = (void *) _data;
		iov[i].iov_len  = _size;
		i++;
	}

	// Flush un-buffered data
	if (len) {
		iov[i].iov_base = (void *) data;
		iov[i].iov_len  = len;
		i++;
	}

	if (i) {
		ssize_t r = writev_all(_fd, iov, i);
		if (r < 0)
			ostrbuf::failure(strerror(errno));
	}
"""
PB = """		if (n > room())
			return do_flush(data, n);
		do_copy(data, n);
"""
CASES = [
 ('c15-room', ['C15'], 'V', [(H, 'size_t room() const { return _capacity - _size; }', 'size_t room() const { return _capacity - _size + 1; }')]),
 ('c15-room2', ['C15'], 'V', [(H, 'if (n > room())', 'if (n > _capacity)')]),
 ('c15-trunc', ['C15'], 'V', [(H, '		if (n > room())\n', '		unsigned int len = n;\n		if (len > room())\n')]),
 ('c15-dropbuf', ['C15'], 'V', [(H, PB, '		if (n > room()) {\n			if (n > _capacity)\n				reset();\n			return do_flush(data, n);\n		}\n		do_copy(data, n);\n')]),
 ('c15-copyfirst', ['C15'], 'V', [(H, '			return do_flush(data, n);\n', '		{\n			size_t k = room();\n			do_copy(data, k);\n			return do_flush(data + k, n);\n		}\n')]),
 ('c15-tail', ['C15'], 'V', [(H, 'memcpy(tail(), data, n);\n		_size += n;', '_size += n;\n		memcpy(tail(), data, n);')]),
 ('c15-fdorder', ['C15'], 'V', [(FD, FB, FB.replace('_data;\n		iov[i].iov_len  = _size', 'X;\n		iov[i].iov_len  = Y').replace('data;\n		iov[i].iov_len  = len', '_data;\n		iov[i].iov_len  = _size').replace('X;\n		iov[i].iov_len  = Y', 'data;\n		iov[i].iov_len  = len').replace('if (_size)', 'if (LL)').replace('if (len)', 'if (_size)').replace('if (LL)', 'if (len)'))]),
 ('c15-fdnoreset', ['C15'], 'V', [(FD, '	this->reset();\n', '	if (len) this->reset();\n')]),
 ('c15-fdnew', ['C15'], 'V', [(FD, '	if (len) {\n		iov[i]', '	if (len && !i) {\n		iov[i]')]),
 ('c15-tee', ['C15'], 'V', [(TE, '		_o1->flush(_data, _size);\n', '		if (!len) _o1->flush(_data, _size);\n')]),
 ('c15-teeorder', ['C15'], 'V', [(TE, """	// Flush buffered data
	if (_size) {
		_o0->flush(_data, _size);
		_o1->flush(_data, _size);
	}

	// Flush un-buffered data
	if (len) {
		_o0->flush(data, len);
		_o1->flush(data, len);
	}
""", """	if (_size)
		_o0->flush(_data, _size);
	if (len) {
		_o0->flush(data, len);
		_o1->flush(data, len);
	}
	if (_size)
		_o1->flush(_data, _size);
""")]),
 ('c15-teefail', ['C15'], 'V', [(TE, '(_o0->failed() || _o1->failed())', '(_o0->failed() && _o1->failed())')]),
 ('c15-teeerr', ['C15'], 'V', [(TE, '_o0->failed() ? _o0->error() : _o1->error()', '_o0->failed() ? _o1->error() : _o0->error()')]),
 ('c15-stdioerr', ['C15', 'C16'], 'V', [(ST, '	if (ferror(_file))\n', '	if (len && ferror(_file))\n')]),
 ('c15-stdioelse', ['C15'], 'V', [(ST, '	// Flush un-buffered data\n	if (len)', '	// Flush un-buffered data\n	else if (len)')]),
 ('c15-fileerr', ['C15', 'C16'], 'V', [(OF, '			if (r < 0)\n				ostrbuf::failure(strerror(errno));\n', '			if (r < 0 && errno != ENOSPC)\n				ostrbuf::failure(strerror(errno));\n'), (OF, '			if (r < 0 && errno != ENOSPC)', '			if (r < -1)')]),
 ('c15-ctorcap', ['C15'], 'V', [(OB, '	_data(0), _capacity(0), _size(0), _failed(false)\n', '	_data(0), _capacity(capacity), _size(0), _failed(false)\n')]),
 ('c15-ctormal', ['C15'], 'V', [(OB, 'malloc(capacity);', 'malloc((unsigned short) capacity);')]),
 ('c15-nullreset', ['C15'], 'V', [(NU, '		reset();\n', '')]),
 # behaviour-preserving edits
 ('c15-ref-inv', ['C15'], 'ok', [(H, PB, '		if (n <= room()) {\n			memcpy(_data + _size, data, n);\n			_size += n;\n			return;\n		}\n		do_flush(data, n);\n')]),
 ('c15-fillfailed', ['C15'], 'V', [(H, PB, '		if (n > room()) {\n			flush();\n			if (n >= capacity())\n				return do_flush(data, n);\n		}\n		do_copy(data, n);\n')]),
 ('c15-ref-loop', ['C15'], 'ok', [(H, '		memcpy(tail(), data, n);\n		_size += n;', '		for (size_t k = 0; k < n; k++)\n			_data[_size++] = data[k];')]),
 ('c15-ref-stdcopy', ['C15'], 'ok', [(H, '		memcpy(tail(), data, n);\n', '		std::copy(data, data + n, tail());\n'), (H, '#include <string>\n', '#include <string>\n#include <algorithm>\n')]),
 ('c15-ref-helper', ['C15', 'C16'], 'ok', [(FD, FB, """	struct iovec iov[2];
	unsigned int i = 0;
	auto add = [&](const uint8_t *p, size_t n) {
		if (!n)
			return;
		iov[i].iov_base = (void *) p;
		iov[i].iov_len  = n;
		++i;
	};
	add(_data, _size);
	add(data, len);
	if (i && writev_all(_fd, iov, i) < 0)
		failure(strerror(errno));
""")]),
 ('c15-ref-two', ['C15', 'C16'], 'ok', [(FD, FB, """	struct iovec iov[2] = { { (void *) _data, _size }, { (void *) data, len } };
	bool ok = true;
	if (_size && writev_all(_fd, iov, 1) < 0)
		ok = false;
	if (ok && len && writev_all(_fd, iov + 1, 1) < 0)
		ok = false;
	if (!ok)
		failure(strerror(errno));
""")]),
 ('c15-ref-teeloop', ['C15'], 'ok', [(TE, """	if (_size) {
		_o0->flush(_data, _size);
		_o1->flush(_data, _size);
	}

	// Flush un-buffered data
	if (len) {
		_o0->flush(data, len);
		_o1->flush(data, len);
	}
""", """	ostrbuf *down[] = { _o0, _o1 };
	for (ostrbuf *o : down) {
		if (_size)
			o->flush(_data, _size);
		if (len)
			o->flush(data, len);
	}
""")]),
 ('c15-ref-fwrite', ['C15', 'C16'], 'ok', [(ST, """	if (_size)
		fwrite(_data, 1, _size, _file);

	// Flush un-buffered data
	if (len)
		fwrite(data, 1, len, _file);

	if (ferror(_file))
		ostrbuf::failure(strerror(errno));
""", """	bool ok = true;
	if (_size)
		ok = fwrite(_data, 1, _size, _file) == _size;
	if (ok && len)
		ok = fwrite(data, 1, len, _file) == len;
	if (!ok)
		failure(strerror(errno));
""")]),
 # C16
 ('c16-once', ['C16'], 'V', [(FD, WA, '		total += r;\n		break;\n')]),
 ('c16-eintr', ['C16'], 'V', [(FD, '			if (errno == EINTR)\n				continue;\n', '')]),
 ('c16-eintr0', ['C16'], 'V', [(FD, '				continue;\n', '				return total;\n')]),
 ('c16-off', ['C16'], 'V', [(FD, '(const uint8_t *) iov->iov_base + done, iov->iov_len - done', '(const uint8_t *) iov->iov_base, iov->iov_len - done')]),
 ('c16-len', ['C16'], 'V', [(FD, 'iov->iov_base + done, iov->iov_len - done', 'iov->iov_base + done, iov->iov_len')]),
 ('c16-edge', ['C16'], 'V', [(FD, 'done >= iov->iov_len', 'done > iov->iov_len')]),
 ('c16-doneclr', ['C16'], 'V', [(FD, '			done -= iov->iov_len;\n', '			done = 0;\n')]),
 ('c16-first', ['C16'], 'V', [(FD, '		while (iovcnt > 0 && done >=', '		if (iovcnt > 0 && done >=')]),
 ('c16-writev', ['C16'], 'V', [(OF, 'ostrbuf_fd::writev_all(_fd, iov, iovcnt)', '::writev(_fd, iov, iovcnt)')]),
 ('c16-rv', ['C16'], 'V', [(OF, '	pthread_mutex_unlock(&_write_mutex);\n\n	return n;', '	pthread_mutex_unlock(&_write_mutex);\n\n	return n < 0 ? 0 : n;')]),
 ('c16-zero', ['C16'], 'V', [(FD, '			errno = EIO;\n			return -1;\n', '			return total;\n')]),
 ('c16-ref-one', ['C16', 'C15'], 'ok', [(FD, """	while (iovcnt > 0) {
		ssize_t r;
""" + '\n' + WB, """	for (; iovcnt > 0;) {
		ssize_t r = ::write(fd, (const uint8_t *) iov->iov_base + done, iov->iov_len - done);
""")]),
 ('c16-ref-copy', ['C16', 'C15'], 'ok', [(FD, WB, """		struct iovec v[2];
		int k = 0;
		for (; k < iovcnt && k < 2; k++)
			v[k] = iov[k];
		v[0].iov_base = (uint8_t *) v[0].iov_base + done;
		v[0].iov_len -= done;
		r = ::writev(fd, v, k);
""")]),
 ('c16-ref-helper', ['C16', 'C15'], 'ok', [(FD, 'ssize_t ostrbuf_fd::writev_all(', """static ssize_t attempt(int fd, const struct iovec *iov, int iovcnt, size_t done)
{
	ssize_t r;
	do {
		r = done ? ::write(fd, (const char *) iov->iov_base + done, iov->iov_len - done) : ::writev(fd, iov, iovcnt);
	} while (r < 0 && errno == EINTR);
	return r;
}

ssize_t ostrbuf_fd::writev_all("""), (FD, '		ssize_t r;\n\n' + WB + """		if (r < 0) {
			if (errno == EINTR)
				continue;
			return -1;
		}
""", '		const ssize_t r = attempt(fd, iov, iovcnt, done);\n		if (r < 0)\n			return r;\n')]),
]
