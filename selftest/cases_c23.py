S = 'src/output-%s.cc'
F = 'src/output-file.cc'
CASES = [
 ('c23-noheader', ['C23'], 'V', [(S % 'pipe', '	header("pipe");\n', '')]),
 ('c23-hdrearly', ['C23'], 'V', [(S % 'plainfile', '	output::header(name);\n', ''), (S % 'plainfile', '	init(new', '	output::header(name);\n	init(new')]),
 ('c23-nofooter', ['C23'], 'V', [(S % 'stderr', '	footer();\n', '')]),
 ('c23-noflush', ['C23'], 'V', [('include/hogl/detail/output.hpp', '		_format.footer(*_ostrbuf, n);\n		flush();\n', '		_format.footer(*_ostrbuf, n);\n')]),
 ('c23-fdleak', ['C23'], 'V', [(S % 'plainfile', 'ostrbuf_fd::CLOSE_ON_DELETE', '0')]),
 ('c23-closeout', ['C23'], 'V', [(S % 'stdout', 'ostrbuf_stdio(stdout, 0 /* flags */', 'ostrbuf_stdio(stdout, ostrbuf_stdio::CLOSE_ON_DELETE')]),
 ('c23-swapfd', ['C23'], 'V', [(S % 'stderr', 'ostrbuf_stdio(stderr,', 'ostrbuf_stdio(stdout,')]),
 ('c23-closefirst', ['C23'], 'V', [(F, '	// Write format footer and flush the buffer\n', '	close(_fd);\n'), (F, '	// Close current descriptor\n	close(_fd);\n', '')]),
 ('c23-double', ['C23'], 'V', [(F, 'delete _ostrbuf; _ostrbuf = 0;', 'delete _ostrbuf;')]),
 ('c23-teeone', ['C23'], 'V', [(S % 'tee', 'o0->get_ostrbuf(), o1->get_ostrbuf()', 'o0->get_ostrbuf(), o0->get_ostrbuf()')]),
 ('c23-teedel', ['C23'], 'V', [('src/ostrbuf-tee.cc', "	// We don't own underlying ostrbufs\n", '	delete _o1;\n')]),
 ('c23-initleak', ['C23'], 'V', [('src/output.cc', '	delete _ostrbuf;\n	_ostrbuf = sb', '	_ostrbuf = sb')]),
 ('c23-novdtor', ['C23'], 'V', [('include/hogl/detail/output.hpp', '	virtual ~output();', '	~output();')]),
 ('c23-nothrow', ['C23'], 'V', [(S % 'plainfile', '		throw std::runtime_error("hogl::output_plainfile: failed to open file for writing");\n', '')]),
 ('c23-trunc', ['C23'], 'V', [(S % 'plainfile', 'O_WRONLY | O_CREAT | O_TRUNC', 'O_WRONLY | O_CREAT')]),
 ('c23-first', ['C23'], 'V', [('include/hogl/detail/output.hpp', 'bool first = true)', 'bool first = false)')]),
 ('c23-stdiodtor', ['C23'], 'V', [('src/ostrbuf-stdio.cc', '	if (_flags & CLOSE_ON_DELETE) {', '	if (_flags & CLOSE_ON_DELETE && _capacity) {')]),
 ('c23-ref-flush', ['C23'], 'ok', [(S % 'pipe', '	footer();\n', '	flush();\n	footer();\n	flush();\n')]),
 ('c23-ref-init', ['C23'], 'ok', [('src/output.cc', '	delete _ostrbuf;\n	_ostrbuf = sb ? sb : new ostrbuf_null("underlying stream uninitialized");', '	ostrbuf *old = _ostrbuf;\n	if (!sb)\n		sb = new ostrbuf_null("underlying stream uninitialized");\n	_ostrbuf = sb;\n	delete old;')]),
 ('c23-ref-pclose', ['C23', 'C15'], 'ok', [('src/ostrbuf-stdio.cc', '		::fclose(_file);', '		::pclose(_file);')]),
 ('c23-ref-dtor', ['C23'], 'ok', [(S % 'plainfile', '	output::footer();\n', '	_format.footer(*_ostrbuf, 0);\n	_ostrbuf->flush();\n')]),
]
