#include "vp.hpp"
extern "C" {
#define LA(N, T) \
  uint64_t vp_##N##_empty(const base::T::lookahead *d) { return d->empty() ? 1 : 0; } \
  uint8_t vp_##N##_star(const base::T::lookahead *d) { return **d; }
LA(bufferla, buffer)
LA(buffersla, buffers)
}
#include <bnl/base/buffer_view.hpp>
using B = base::buffer;
extern "C" {
VPSIZE(buffer, B)
VPOFF(buffer_begin, B, begin_)
VPOFF(buffer_end, B, end_)
VPOFF(buffer_sso, B, sso_)
VPVAL(buffer_threshold, B::SSO_THRESHOLD)
void vp_buf_new0(B *b) { new (b) B(); }
void vp_buf_newn(B *b, size_t n) { new (b) B(n); }
void vp_buf_newd(B *b, const uint8_t *d, size_t n) { new (b) B(d, n); }
void vp_buf_newc(B *b, const char *d, size_t n) { new (b) B(d, n); }
void vp_buf_newv(B *b, const uint8_t *d, size_t n) { new (b) B(base::buffer_view(d, n)); }
void vp_buf_move(B *d, B *s) { new (d) B(std::move(*s)); }
void vp_buf_assign(B *d, B *s) { *d = std::move(*s); }
void vp_buf_delete(B *b) { b->~B(); }
uint8_t *vp_buf_data(B *b) { return b->data(); }
const uint8_t *vp_buf_cdata(const B *b) { return b->data(); }
uint8_t *vp_buf_begin(B *b) { return b->begin(); }
const uint8_t *vp_buf_cbegin(const B *b) { return b->begin(); }
uint8_t *vp_buf_end(B *b) { return b->end(); }
const uint8_t *vp_buf_cend(const B *b) { return b->end(); }
size_t vp_buf_size(const B *b) { return b->size(); }
uint64_t vp_buf_empty(const B *b) { return b->empty() ? 1 : 0; }
uint8_t vp_buf_cat(const B *b, size_t i) { return (*b)[i]; }
uint8_t vp_buf_cstar(const B *b) { return **b; }
uint8_t *vp_buf_at(B *b, size_t i) { return &(*b)[i]; }
uint8_t *vp_buf_star(B *b) { return &**b; }
void vp_buf_consume(B *b, size_t n) { b->consume(n); }
void vp_buf_slice(B *d, B *b, size_t n) { new (d) B(b->slice(n)); }
void vp_buf_view(const B *b, vp_out *o, const uint8_t **p) { base::buffer_view v = *b; *p = v.data(); o->v[0] = v.size(); }
void vp_buf_concat(B *d, const B *a, const B *b) { new (d) B(B::concat(*a, *b)); }
}
using Q = base::buffers;
extern "C" {
size_t vp_q_size(const Q *q) { return q->size(); }
uint64_t vp_q_empty(const Q *q) { return q->empty() ? 1 : 0; }
uint8_t vp_q_at(const Q *q, size_t i) { return (*q)[i]; }
uint8_t vp_q_star(const Q *q) { return **q; }
void vp_q_slice(B *d, Q *q, size_t n) { new (d) B(q->slice(n)); }
void vp_q_consume(Q *q, size_t n) { q->consume(n); }
void vp_q_push(Q *q, B *b) { q->push(std::move(*b)); }
void vp_q_pop(B *d, Q *q) { new (d) B(q->pop()); }
const B *vp_q_front(const Q *q) { return &q->front(); }
const B *vp_q_back(const Q *q) { return &q->back(); }
}
