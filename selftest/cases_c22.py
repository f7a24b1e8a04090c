M = 'src/mask.cc'
E = 'src/engine.cc'
C = 'src/c-api.cc'
CASES = [
 ('c22-search', ['C22'], 'V', [(M, 'if (std::regex_match(str, re))', 'if (std::regex_search(str, re))')]),
 ('c22-searcharea', ['C22'], 'V', [(M, 'if (std::regex_match(str, it->area)) {', 'if (std::regex_search(str, it->area)) {')]),
 ('c22-once', ['C22'], 'V', [(M, '			__apply(area, it->sect, it->on);\n', '			__apply(area, it->sect, it->on);\n			if (!it->on) break;\n')]),
 ('c22-first', ['C22'], 'V', [(M, 'areg = str.substr(abeg, aend - abeg);', 'areg = str.substr(abeg, aend);')]),
 ('c22-rfind', ['C22'], 'V', [(M, 'size_t aend = str.find(\':\', abeg);', 'size_t aend = str.find_last_of(\':\');')]),
 ('c22-bangpos', ['C22'], 'V', [(M, '		sreg = str.substr(abeg);', '		sreg = str;')]),
 ('c22-emptysect', ['C22'], 'V', [(M, '	if (sreg.empty()) sreg = ".*";\n', '')]),
 ('c22-emptyarea', ['C22'], 'V', [(M, '	if (areg.empty()) areg = ".*";\n', '')]),
 ('c22-icase', ['C22'], 'V', [(M, 'std::regex(sreg, std::regex::extended | std::regex::optimize)', 'std::regex(sreg, std::regex::extended | std::regex::icase)')]),
 ('c22-front', ['C22'], 'V', [(M, '_list->push_back(mask::data(str,', '_list->push_front(mask::data(str,')]),
 ('c22-selfassign', ['C22'], 'V', [(M, '	data_list *list = new data_list(*m._list);\n	delete _list;\n	_list = list;', '	delete _list;\n	_list = new data_list(*m._list);')]),
 ('c22-share', ['C22'], 'V', [(M, 'mask::mask(mask &m)\n{\n	_list = new data_list(*m._list);', 'mask::mask(mask &m)\n{\n	_list = m._list;')]),
 ('c22-stream', ['C22'], 'V', [(M, 'while (std::getline(s, str)) {', 'if (std::getline(s, str)) {'), (M, '		if (str.empty())\n			continue;\n		m << str;', '		if (!str.empty())\n			m << str;')]),
 ('c22-streamstop', ['C22'], 'V', [(M, '		if (str.empty())\n			continue;', '		if (str.empty())\n			break;')]),
 ('c22-capifirst', ['C22'], 'V', [(C, '	*mask << str;\n	va_start(ap, str);', '	va_start(ap, str);')]),
 ('c22-capireplace', ['C22'], 'V', [(C, 'hogl::mask *mask = (hogl::mask *)_mask;\n	*mask << str;\n}', 'hogl::mask *mask = (hogl::mask *)_mask;\n	*mask = hogl::mask(str, (char *) 0);\n}')]),
 ('c22-engfirst', ['C22'], 'V', [(E, '	for (it = _area_map.begin(); it != _area_map.end(); ++it)\n		m.apply(it->second);', '	it = _area_map.begin();\n	if (it != _area_map.end())\n		m.apply(it->second);')]),
 ('c22-engold', ['C22'], 'V', [(E, '	_mask = m;\n\n	area_map::const_iterator it;\n	for (it = _area_map.begin(); it != _area_map.end(); ++it)\n		m.apply(it->second);', '	area_map::const_iterator it;\n	for (it = _area_map.begin(); it != _area_map.end(); ++it)\n		_mask.apply(it->second);\n	_mask = m;')]),
 ('c22-engopts', ['C22'], 'V', [(E, '	_mask = opts.default_mask;\n', '')]),
 ('c22-split', ['C22'], 'V', [(E, '	_mask = m;\n\n', '	_mask = m;\n	pthread_mutex_unlock(&_area_mutex);\n	pthread_mutex_lock(&_area_mutex);\n')]),
 # behaviour-preserving edits
 ('c22-ref-range', ['C22'], 'ok', [(M, '	data_list::const_iterator it;\n	for (it=_list->begin(); it != _list->end(); ++it) {\n		const std::string str(area.name());\n		if (std::regex_match(str, it->area)) {\n			dprint("applying mask %p to area %p [%s]", (void*)this, (void*)&area, area.name());\n			__apply(area, it->sect, it->on);\n		}\n	}', '	const std::string str(area.name());\n	for (const data &d : *_list) {\n		if (!std::regex_match(str, d.area))\n			continue;\n		__apply(area, d.sect, d.on);\n	}')]),
 ('c22-ref-parse', ['C22'], 'ok', [(M, '	bool on = (str[0] != \'!\');\n	size_t abeg = !on;\n	size_t aend = str.find(\':\', abeg);\n	std::string areg, sreg;\n	if (aend == str.npos) {\n		areg = ".*";\n		sreg = str.substr(abeg);\n	} else {\n		areg = str.substr(abeg, aend - abeg);\n		sreg = str.substr(aend + 1);\n	}\n', '	bool on = true;\n	std::string rest(str);\n	if (rest[0] == \'!\') {\n		on = false;\n		rest = rest.substr(1);\n	}\n	std::string areg, sreg;\n	const size_t colon = rest.find(":");\n	if (colon != std::string::npos) {\n		areg = rest.substr(0, colon);\n		rest.erase(0, colon + 1);\n	}\n	sreg = rest;\n')]),
 ('c22-ref-emplace', ['C22'], 'ok', [(M, '	_list->push_back(mask::data(str,\n				std::regex(areg, std::regex::extended | std::regex::optimize),\n				std::regex(sreg, std::regex::extended | std::regex::optimize),\n				on)\n			);', '	const auto flags = std::regex::extended | std::regex::optimize;\n	const std::regex a(areg, flags), s(sreg, flags);\n	_list->push_back({str, a, s, on});')]),
 ('c22-ref-swap', ['C22'], 'ok', [(M, '	data_list *list = new data_list(*m._list);\n	delete _list;\n	_list = list;', '	if (this == &m)\n		return;\n	delete _list;\n	_list = new data_list(*m._list);')]),
 ('c22-ref-tmp', ['C22'], 'ok', [(M, '	data_list *list = new data_list(*m._list);\n	delete _list;\n	_list = list;', '	mask tmp(m);\n	std::swap(_list, tmp._list);')]),
 ('c22-ref-va', ['C22'], 'ok', [(C, '	while ((str = va_arg(ap, char *)))\n		*mask << str;', '	for (str = va_arg(ap, const char *); str; str = va_arg(ap, const char *))\n		mask->add(str);')]),
]
