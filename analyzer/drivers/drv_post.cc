// Analysis driver (never linked or run): instantiates the header-only posting
// interfaces so that they exist in the analysed program.
#include <hogl/area.hpp>
#include <hogl/engine.hpp>
#include <hogl/post.hpp>
#include <hogl/flush.hpp>
#include <hogl/tls.hpp>
#include <hogl/timesource.hpp>
#include <hogl/ring.hpp>
#include <hogl/detail/output.hpp>
#include <hogl/output-null.hpp>
#include <hogl/output-file.hpp>
#include <hogl/format-null.hpp>
#include <hogl/detail/tsobuf.hpp>
#include <hogl/detail/refcount.hpp>
#include <hogl/detail/bitmap.hpp>
#include <hogl/detail/ostrbuf.hpp>
#include <string>
namespace hogldrv {
typedef const hogl::arg &A;

void post_tls_0(const hogl::area *area, unsigned int sect) { hogl::post(area, sect); }
void post_unlocked_tls_0(const hogl::area *area, unsigned int sect) { hogl::post_unlocked(area, sect); }
void post_ring_0(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect) { hogl::post(ring, area, sect); }
void post_unlocked_ring_0(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect) { hogl::post_unlocked(ring, area, sect); }
void push_ring_0(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect) { hogl::push(ring, area, sect); }
void push_unlocked_ring_0(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect) { hogl::push_unlocked(ring, area, sect); }
void post_tls_1(const hogl::area *area, unsigned int sect, A a0) { hogl::post(area, sect, a0); }
void post_unlocked_tls_1(const hogl::area *area, unsigned int sect, A a0) { hogl::post_unlocked(area, sect, a0); }
void post_ring_1(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0) { hogl::post(ring, area, sect, a0); }
void post_unlocked_ring_1(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0) { hogl::post_unlocked(ring, area, sect, a0); }
void push_ring_1(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0) { hogl::push(ring, area, sect, a0); }
void push_unlocked_ring_1(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0) { hogl::push_unlocked(ring, area, sect, a0); }
void post_tls_2(const hogl::area *area, unsigned int sect, A a0, A a1) { hogl::post(area, sect, a0, a1); }
void post_unlocked_tls_2(const hogl::area *area, unsigned int sect, A a0, A a1) { hogl::post_unlocked(area, sect, a0, a1); }
void post_ring_2(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1) { hogl::post(ring, area, sect, a0, a1); }
void post_unlocked_ring_2(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1) { hogl::post_unlocked(ring, area, sect, a0, a1); }
void push_ring_2(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1) { hogl::push(ring, area, sect, a0, a1); }
void push_unlocked_ring_2(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1) { hogl::push_unlocked(ring, area, sect, a0, a1); }
void post_tls_3(const hogl::area *area, unsigned int sect, A a0, A a1, A a2) { hogl::post(area, sect, a0, a1, a2); }
void post_unlocked_tls_3(const hogl::area *area, unsigned int sect, A a0, A a1, A a2) { hogl::post_unlocked(area, sect, a0, a1, a2); }
void post_ring_3(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2) { hogl::post(ring, area, sect, a0, a1, a2); }
void post_unlocked_ring_3(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2) { hogl::post_unlocked(ring, area, sect, a0, a1, a2); }
void push_ring_3(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2) { hogl::push(ring, area, sect, a0, a1, a2); }
void push_unlocked_ring_3(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2) { hogl::push_unlocked(ring, area, sect, a0, a1, a2); }
void post_tls_5(const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4) { hogl::post(area, sect, a0, a1, a2, a3, a4); }
void post_unlocked_tls_5(const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4) { hogl::post_unlocked(area, sect, a0, a1, a2, a3, a4); }
void post_ring_5(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4) { hogl::post(ring, area, sect, a0, a1, a2, a3, a4); }
void post_unlocked_ring_5(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4) { hogl::post_unlocked(ring, area, sect, a0, a1, a2, a3, a4); }
void push_ring_5(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4) { hogl::push(ring, area, sect, a0, a1, a2, a3, a4); }
void push_unlocked_ring_5(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4) { hogl::push_unlocked(ring, area, sect, a0, a1, a2, a3, a4); }
void post_tls_8(const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7) { hogl::post(area, sect, a0, a1, a2, a3, a4, a5, a6, a7); }
void post_unlocked_tls_8(const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7) { hogl::post_unlocked(area, sect, a0, a1, a2, a3, a4, a5, a6, a7); }
void post_ring_8(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7) { hogl::post(ring, area, sect, a0, a1, a2, a3, a4, a5, a6, a7); }
void post_unlocked_ring_8(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7) { hogl::post_unlocked(ring, area, sect, a0, a1, a2, a3, a4, a5, a6, a7); }
void push_ring_8(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7) { hogl::push(ring, area, sect, a0, a1, a2, a3, a4, a5, a6, a7); }
void push_unlocked_ring_8(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7) { hogl::push_unlocked(ring, area, sect, a0, a1, a2, a3, a4, a5, a6, a7); }
void post_tls_15(const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14) { hogl::post(area, sect, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14); }
void post_unlocked_tls_15(const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14) { hogl::post_unlocked(area, sect, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14); }
void post_ring_15(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14) { hogl::post(ring, area, sect, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14); }
void post_unlocked_ring_15(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14) { hogl::post_unlocked(ring, area, sect, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14); }
void push_ring_15(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14) { hogl::push(ring, area, sect, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14); }
void push_unlocked_ring_15(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14) { hogl::push_unlocked(ring, area, sect, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14); }
void post_tls_16(const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14, A a15) { hogl::post(area, sect, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
void post_unlocked_tls_16(const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14, A a15) { hogl::post_unlocked(area, sect, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
void post_ring_16(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14, A a15) { hogl::post(ring, area, sect, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
void post_unlocked_ring_16(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14, A a15) { hogl::post_unlocked(ring, area, sect, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
void push_ring_16(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14, A a15) { hogl::push(ring, area, sect, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
void push_unlocked_ring_16(hogl::ringbuf *ring, const hogl::area *area, unsigned int sect, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14, A a15) { hogl::push_unlocked(ring, area, sect, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
void mkarg_bool(hogl::arg *out, bool v) { *out = hogl::arg(v); }
void mkarg_u8(hogl::arg *out, uint8_t v) { *out = hogl::arg(v); }
void mkarg_u16(hogl::arg *out, uint16_t v) { *out = hogl::arg(v); }
void mkarg_u32(hogl::arg *out, unsigned int v) { *out = hogl::arg(v); }
void mkarg_s32(hogl::arg *out, int v) { *out = hogl::arg(v); }
void mkarg_u64(hogl::arg *out, unsigned long v) { *out = hogl::arg(v); }
void mkarg_s64(hogl::arg *out, long v) { *out = hogl::arg(v); }
void mkarg_ull(hogl::arg *out, unsigned long long v) { *out = hogl::arg(v); }
void mkarg_sll(hogl::arg *out, long long v) { *out = hogl::arg(v); }
void mkarg_char(hogl::arg *out, char v) { *out = hogl::arg(v); }
void mkarg_schar(hogl::arg *out, signed char v) { *out = hogl::arg(v); }
void mkarg_short(hogl::arg *out, short v) { *out = hogl::arg(v); }
void mkarg_flt(hogl::arg *out, float v) { *out = hogl::arg(v); }
void mkarg_dbl(hogl::arg *out, double v) { *out = hogl::arg(v); }
void mkarg_ptr(hogl::arg *out, void * v) { *out = hogl::arg(v); }
void mkarg_vptr(hogl::arg *out, volatile void * v) { *out = hogl::arg(v); }
void mkarg_cstr(hogl::arg *out, const char * v) { *out = hogl::arg(v); }
void mkarg_mstr(hogl::arg *out, char * v) { *out = hogl::arg(v); }
void mkarg_str(hogl::arg *out, const std::string & v) { *out = hogl::arg(v); }
void mkarg_gstr(hogl::arg *out, const hogl::arg_gstr & v) { *out = hogl::arg(v); }
void mkarg_xdump(hogl::arg *out, const hogl::arg_xdump & v) { *out = hogl::arg(v); }
void mkarg_raw(hogl::arg *out, const hogl::arg_raw & v) { *out = hogl::arg(v); }

void mkarg_none(hogl::arg *out) { *out = hogl::arg(); }
uint64_t rd_arg32(const hogl::record *r, unsigned int i) { return r->get_arg_val32(i); }
uint64_t rd_arg64(const hogl::record *r, unsigned int i) { return r->get_arg_val64(i); }
unsigned int rd_argtype(const hogl::record *r, unsigned int i) { return r->get_arg_type(i); }
const uint8_t *rd_argdata(const hogl::record *r, unsigned int i, unsigned int *len) { return r->get_arg_data(i, *len); }
unsigned int rb_copy_cstr(hogl::record *r, unsigned int i, const uint8_t *s, unsigned int len, unsigned int tail, unsigned int off) { return r->copy_cstr(i, s, len, tail, off); }
unsigned int rb_copy_data(hogl::record *r, unsigned int i, const uint8_t *s, unsigned int len, unsigned int tail, unsigned int off) { return r->copy_data(i, s, len, tail, off); }
unsigned int rb_copy_xdump(hogl::record *r, unsigned int i, const hogl::arg_xdump *x, unsigned int tail, unsigned int off) { return r->copy_xdump(i, x, tail, off); }
void rec_set_args_16(hogl::record *r, unsigned int tail, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14, A a15) { r->set_args(tail, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
void rec_set_args_pack(hogl::record *r, unsigned int tail, const hogl::argpack &ap) { r->set_args(tail, ap); }
unsigned int pack_populate_16(hogl::argpack *ap, A a0, A a1, A a2, A a3, A a4, A a5, A a6, A a7, A a8, A a9, A a10, A a11, A a12, A a13, A a14, A a15) { return ap->populate(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
void tso_push(hogl::tsobuf *t, hogl::tsobuf::entry &e) { t->push(e); }
bool tso_pop(hogl::tsobuf *t, hogl::tsobuf::entry &e) { return t->pop(e); }
bool tso_top(hogl::tsobuf *t, hogl::tsobuf::entry &e) { return t->top(e); }
void tso_flip(hogl::tsobuf *t) { t->flip(); }
void tso_sort(hogl::tsobuf *t) { t->sort(); }
bool tso_full(hogl::tsobuf *t) { return t->full(); }
bool tso_empty(hogl::tsobuf *t) { return t->empty(); }
unsigned int tso_size(hogl::tsobuf *t) { return t->size(); }
void tso_resize(hogl::tsobuf *t, unsigned int n) { t->resize(n); }
void rb_push_commit(hogl::ringbuf *r) { r->push_commit(); }
hogl::record *rb_push_begin(hogl::ringbuf *r) { return r->push_begin(); }
hogl::record *rb_pop_begin(hogl::ringbuf *r) { return r->pop_begin(); }
void rb_pop_commit(hogl::ringbuf *r) { r->pop_commit(); }
hogl::record *pit_next(hogl::ringbuf::pop_iterator *p) { return p->next(); }
void pit_commit(hogl::ringbuf::pop_iterator *p) { p->commit(); }
void pit_rewind(hogl::ringbuf::pop_iterator *p, hogl::record *r) { p->rewind(r); }
void pit_reset(hogl::ringbuf::pop_iterator *p) { p->reset(); }
void pit_ring(hogl::ringbuf::pop_iterator *p, hogl::ringbuf *r) { p->ring(r); }
bool pit_valid(hogl::ringbuf::pop_iterator *p) { return p->valid(); }
unsigned int rb_size(hogl::ringbuf *r) { return r->size(); }
unsigned int rb_room(hogl::ringbuf *r) { return r->room(); }
bool rb_empty(hogl::ringbuf *r) { return r->empty(); }
unsigned int rb_capacity(hogl::ringbuf *r) { return r->capacity(); }
void rb_block(hogl::ringbuf *r) { r->block(); }
void rb_unblock(hogl::ringbuf *r) { r->unblock(); }
void rb_lock(hogl::ringbuf *r) { r->lock(); }
void rb_unlock(hogl::ringbuf *r) { r->unlock(); }
hogl::ringbuf *rb_hold(hogl::ringbuf *r) { return r->hold(); }
void rb_release(hogl::ringbuf *r) { r->release(); }
bool rb_orphan(hogl::ringbuf *r) { return r->orphan(); }
uint64_t rb_inc_seqnum(hogl::ringbuf *r) { return r->inc_seqnum(); }
int rc_inc(hogl::refcount *r) { return r->inc(); }
int rc_dec(hogl::refcount *r) { return r->dec(); }
int rc_get(hogl::refcount *r) { return r->get(); }
void rec_special(hogl::record *r, uint32_t t, uint64_t a) { r->special(t, a); }
bool rec_is_special(hogl::record *r) { return r->special(); }
void rec_ack(hogl::record *r) { r->ack(); }
bool rec_acked(hogl::record *r) { return r->acked(); }
bool area_test(const hogl::area *a, unsigned int s) { return a->test(s); }
void area_enable(hogl::area *a, unsigned int s) { a->enable(s); }
void area_disable(hogl::area *a, unsigned int s) { a->disable(s); }
void area_enable_all(hogl::area *a) { a->enable(); }
void area_disable_all(hogl::area *a) { a->disable(); }
const char *area_section_name(const hogl::area *a, unsigned int s) { return a->section_name(s); }
void ob_put(hogl::ostrbuf *o, const uint8_t *p, size_t n) { o->push_back(p, n); }
void ob_push_back(hogl::ostrbuf *o, char c) { o->push_back(c); }
void ob_flush(hogl::ostrbuf *o) { o->flush(); }
void ob_flush_data(hogl::ostrbuf *o, const uint8_t *p, size_t n) { o->flush(p, n); }
void ob_push_str(hogl::ostrbuf *o, const char *p, size_t n) { o->push_back(p, n); }
void ob_push_cstr(hogl::ostrbuf *o, const char *p) { o->push_back(p); }
void ob_push_string(hogl::ostrbuf *o, const std::string &s) { o->push_back(s); }
bool ob_failed(hogl::ostrbuf *o) { return o->failed(); }
const char *ob_error(hogl::ostrbuf *o) { return o->error(); }
void out_process(hogl::output *o, const hogl::format::data *d) { o->process(*d); }
void out_flush(hogl::output *o) { o->flush(); }
bool out_failed(hogl::output *o) { return o->failed(); }
const char *out_error(hogl::output *o) { return o->error(); }
void out_delete(hogl::output *o) { delete o; }
hogl::output *out_null_new(hogl::format &f, unsigned int c) { return new hogl::output_null(f, c); }
} // namespace hogldrv
