S = 'src/schedparam.cc'
CASES = [
 ('c28-incl', ['C28'], 'V', [(S, 'while (a <= b) {', 'while (a < b) {')]),
 ('c28-range', ['C28'], 'V', [(S, 'if (b >= mask.ncpus) return ERANGE;', 'if (b > mask.ncpus) return ERANGE;')]),
 ('c28-rangea', ['C28'], 'V', [(S, 'if (b >= mask.ncpus) return ERANGE;', 'if (a >= mask.ncpus) return ERANGE;')]),
 ('c28-trunc', ['C28'], 'V', [(S, 'unsigned long a, b;', 'unsigned int a, b;')]),
 ('c28-rev', ['C28'], 'V', [(S, 'if (!(a <= b))  return EINVAL;', 'if (a > b) { unsigned long t = a; a = b; b = t; }')]),
 ('c28-shift', ['C28'], 'V', [(S, 'if (m & (1ULL << i)) mask.set(i);', 'if (m & (1 << i)) mask.set(i);')]),
 ('c28-half', ['C28'], 'V', [(S, 'i < sizeof(m) * 8; i++', 'i < sizeof(m) * 4; i++')]),
 ('c28-eptr', ['C28'], 'V', [(S, '	if (eptr != sptr + str.size())\n		return EINVAL;\n', '')]),
 ('c28-errno', ['C28'], 'V', [(S, '	if (errno) \n		return errno;\n', '')]),
 ('c28-base', ['C28'], 'V', [(S, 'std::strtoull(sptr, &eptr, 0)', 'std::strtoull(sptr, &eptr, 16)')]),
 ('c28-dry', ['C28'], 'V', [(S, 'if (!err && !dryrun)', 'if (!err)')]),
 ('c28-sep', ['C28'], 'V', [(S, "if (*p == ',') p++;", "p++;")]),
 ('c28-digit', ['C28'], 'V', [(S, "		if (!isdigit(*p)) return EINVAL;\n\n", '')]),
 ('c28-digit2', ['C28'], 'V', [(S, "			if (!isdigit(*p)) return EINVAL;\n", '')]),
 ('c28-noerr', ['C28'], 'V', [(S, "		err = set_cpu_affinity(this->cpu_affinity);\n		if (err) {", "		err = set_cpu_affinity(this->cpu_affinity);\n		if (err == EINVAL) {")]),
 ('c28-sign', ['C28'], 'V', [(S, "	if (!isdigit(*sptr))\n		return EINVAL;\n", "	if (!*sptr)\n		return EINVAL;\n")]),
 ('c28-partial', ['C28'], 'V', [(S, "	if (!err && !dryrun)\n		err = mask.apply();", "	if (!dryrun)\n		err = mask.apply();")]),
 ('c28-ref-for', ['C28'], 'ok', [(S, "		while (a <= b) {\n			mask.set(a);\n			a++;\n		}\n", "		for (unsigned long c = a; c < b + 1; ++c)\n			mask.set(c);\n")]),
 ('c28-ref-bits', ['C28'], 'ok', [(S, "		if (m & (1ULL << i)) mask.set(i);", "		if ((m >> i) & 1) mask.set(i);")]),
 ('c28-ref-order', ['C28'], 'ok', [(S, "		if (!(a <= b))  return EINVAL;\n		if (b >= mask.ncpus) return ERANGE;\n", "		if (a >= mask.ncpus || b >= mask.ncpus) return ERANGE;\n		if (b < a) return EINVAL;\n")]),
 ('c28-ref-helper', ['C28'], 'ok', [(S, "static int parse_cpulist(", "static bool num(const char *&p, unsigned long &v)\n{\n	if (*p < '0' || *p > '9') return false;\n	char *e;\n	v = strtoul(p, &e, 10);\n	p = e;\n	return true;\n}\n\nstatic int parse_cpulist("),
   (S, "		if (!isdigit(*p)) return EINVAL;\n\n		b = a = strtoul(p, (char **)&p, 10);\n", "		if (!num(p, a)) return EINVAL;\n		b = a;\n"),
   (S, "			if (!isdigit(*p)) return EINVAL;\n			b = strtoul(p, (char **)&p, 10);\n", "			if (!num(p, b)) return EINVAL;\n")]),
 ('c28-ref-prefix', ['C28'], 'ok', [(S, 'if (cpuset_str.compare(0, 5, "list:") == 0)', 'if (cpuset_str.find("list:") == 0)'), (S, 'else if (cpuset_str.compare(0, 5, "mask:") == 0)', 'else if (!strncmp(cpuset_str.c_str(), "mask:", 5))')]),
]
