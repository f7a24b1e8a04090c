R = 'include/hogl/detail/ringbuf.hpp'
PH = 'include/hogl/post.hpp'
P = 'src/post.cc'
B = 'include/hogl/detail/bitmap.hpp'
A = 'include/hogl/detail/area.hpp'
RC = 'include/hogl/detail/record.hpp'
AR = 'include/hogl/detail/args.hpp'
CP = 'include/hogl/c-api/post.h'
CASES = [
 ('c11-unl', ['C11'], 'V', [(PH, '{  \n\tif (area->test(sect))\n\t\tpush_unlocked', '{  \n\tif (!ring->blocking() || area->test(sect))\n\t\tpush_unlocked')]),
 ('c11-bit', ['C11'], 'V', [(B, '|= ((word)1 << which_bit(bit))', '|= ((word)1u << (which_bit(bit) & 31))')]),
 ('c11-test', ['C11'], 'V', [(B, 'return _data[which_word(bit)] & ((word)1 << which_bit(bit));', 'return _data[which_word(bit)] & (1 << which_bit(bit));')]),
 ('c11-ref', ['C11', 'C19'], 'ok', [(B, 'return _data[which_word(bit)] & ((word)1 << which_bit(bit));', 'word w = _data[bit >> 6]; return (w >> (bit % 64)) & 1;'), (PH, '\tif (area->test(sect))\n\t\tpush(ring', '\tconst bool en = area->test(sect);\n\tif (!en) return;\n\t\tpush(ring')]),
 ('c19-malloc', ['C19'], 'V', [(RC, '\thogl_force_inline void set_args(unsigned int tailroom, const argpack &ap)\n\t{', '\thogl_force_inline void set_args(unsigned int tailroom, const argpack &ap)\n\t{\n\t\tif (ap.nargs() > 12) { uint8_t *t = new uint8_t[64]; t[0] = 1; delete [] t; }')]),
 ('c19-block', ['C19'], 'V', [(R, '\t\twhile (hogl_unlikely(_head == t)) {\n\t\t\tif (!blocking()) {', '\t\twhile (hogl_unlikely(_head == t)) {\n\t\t\tif (!blocking() && !_block_active) {')]),
 ('c19-spin', ['C19'], 'V', [(R, '\t\treturn get_record(_tail);\n', '\t\twhile (_block_active) ;\n\t\treturn get_record(_tail);\n')]),
 ('c19-lock', ['C19'], 'V', [(R, '\t\tif (shared())\n\t\t\tpthread_mutex_lock', '\t\tif (shared() || prio() > 0)\n\t\t\tpthread_mutex_lock')]),
 ('c19-string', ['C19'], 'V', [(AR, '(const std::string &str)', '(std::string str)')]),
]
