R = 'include/hogl/detail/ringbuf.hpp'
P = 'src/post.cc'
FL = 'src/flush.cc'
CASES = [
 ('c01-if-block', ['C01'], 'V', [(R, 'while (hogl_unlikely(_head == t)) {', 'if (hogl_unlikely(_head == t)) {')]),
 ('c01-nodropret', ['C01'], 'V', [(R, 'inc_dropcnt();\n\t\t\t\treturn;', 'inc_dropcnt();\n\t\t\t\tbreak;')]),
 ('c01-tail-mask', ['C01'], 'V', [(R, 'commit_tail((t + 1) & _capacity, bar);', 'commit_tail((t + 1) % (_capacity + 2), bar);')]),
 ('c01-marker-room', ['C01'], 'V', [(FL, 'while (!ring->room()) {', 'while (ring->blocking() && !ring->room()) {')]),
 ('c01-pop-tail', ['C01'], 'V', [(R, '\t\tif (h == _tail)\n\t\t\treturn 0;\n\t\treturn get_record(h);', '\t\tif (_head == _tail)\n\t\t\treturn 0;\n\t\treturn get_record(h);')]),
 ('c01-dropcnt-block', ['C01'], 'V', [(R, '\t\t\tblock();\n\t\t}\n\t\tcommit_tail', '\t\t\tblock();\n\t\t\tt = _tail; if (_head == t) { inc_dropcnt(); return; }\n\t\t}\n\t\tcommit_tail')]),
 ('c01-ref-helper', ['C01', 'C02', 'C03', 'C04'], 'ok', [(R, '\tvoid push_commit(bool bar = true)\n\t{\n\t\tunsigned int t = _tail;\n\t\twhile (hogl_unlikely(_head == t)) {\n\t\t\tif (!blocking()) {\n\t\t\t\tinc_dropcnt();\n\t\t\t\treturn;\n\t\t\t}\n\t\t\tblock();\n\t\t}\n\t\tcommit_tail((t + 1) & _capacity, bar);\n\t}',
   '\tbool have_room() const { return room() != 0; }\n\tbool wait_room() { for (;;) { if (have_room()) return true; if (!blocking()) break; block(); } return false; }\n\tvoid push_commit(bool bar = true)\n\t{\n\t\tif (!wait_room()) { inc_dropcnt(); return; }\n\t\tunsigned int nt = _tail + 1; nt &= _capacity;\n\t\tcommit_tail(nt, bar);\n\t}')]),
]
