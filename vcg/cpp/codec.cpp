#include "vp.hpp"
#include <bnl/http3/codec/varint.hpp>
#include <bnl/http3/codec/qpack/prefix_int.hpp>
#include <bnl/http3/codec/qpack/huffman.hpp>
#include <bnl/http3/codec/qpack/literal.hpp>
using namespace bnl::http3;
extern "C" {
VPMKS(u64, uint64_t)
VPMK(buffer, base::buffer)
VPMK(string, base::string)
http3::result<void> vpmk_void_ok() { return base::success(); }
http3::result<void> vpmk_void_err(uint64_t e) { return static_cast<http3::error>(e); }

#define SEQ(NAME, T) \
void vp_varint_decode_##NAME(T *s, vp_out *o) { auto r = varint::decode(*s); if (vp_fl(r, o)) o->v[0] = r.value(); } \
void vp_prefix_int_decode_##NAME(T *s, uint8_t p, vp_out *o) { auto r = qpack::prefix_int::decode(*s, p); if (vp_fl(r, o)) o->v[0] = r.value(); } \
void vp_huffman_decode_##NAME(T *s, size_t n, base::string *d, vp_out *o) { auto r = qpack::huffman::decode(*s, n); if (vp_fl(r, o)) new (d) base::string(std::move(r).value()); } \
void vp_literal_decode_##NAME(T *s, uint8_t p, base::string *d, vp_out *o) { auto r = qpack::literal::decode(*s, p); if (vp_fl(r, o)) new (d) base::string(std::move(r).value()); }
SEQ(buffer, base::buffer)
SEQ(buffers, base::buffers)
SEQ(bufferla, base::buffer::lookahead)
SEQ(buffersla, base::buffers::lookahead)
void vp_bufferla_mk(base::buffer::lookahead *d, const base::buffer *s) { new (d) base::buffer::lookahead(*s); }
void vp_buffersla_mk(base::buffers::lookahead *d, const base::buffers *s) { new (d) base::buffers::lookahead(*s); }
void vp_bufferla_cp(base::buffer::lookahead *d, const base::buffer::lookahead *s) { new (d) base::buffer::lookahead(*s); }
void vp_buffersla_cp(base::buffers::lookahead *d, const base::buffers::lookahead *s) { new (d) base::buffers::lookahead(*s); }
void vp_bufferla_consume(base::buffer::lookahead *d, size_t n) { d->consume(n); }
void vp_buffersla_consume(base::buffers::lookahead *d, size_t n) { d->consume(n); }
size_t vp_bufferla_consumed(base::buffer::lookahead *d) { return d->consumed(); }
size_t vp_buffersla_consumed(base::buffers::lookahead *d) { return d->consumed(); }
size_t vp_bufferla_size(base::buffer::lookahead *d) { return d->size(); }
size_t vp_buffersla_size(base::buffers::lookahead *d) { return d->size(); }
uint8_t vp_bufferla_at(base::buffer::lookahead *d, size_t i) { return (*d)[i]; }
uint8_t vp_buffersla_at(base::buffers::lookahead *d, size_t i) { return (*d)[i]; }

void vp_varint_encoded_size(uint64_t v, vp_out *o) { auto r = varint::encoded_size(v); if (vp_fl(r, o)) o->v[0] = r.value(); }
void vp_varint_encode_raw(uint8_t *d, uint64_t v, vp_out *o) { auto r = varint::encode(d, v); if (vp_fl(r, o)) o->v[0] = r.value(); }
void vp_varint_encode(uint64_t v, base::buffer *b, vp_out *o) { auto r = varint::encode(v); if (vp_fl(r, o)) new (b) base::buffer(std::move(r).value()); }

size_t vp_prefix_int_encoded_size(uint64_t v, uint8_t p) { return qpack::prefix_int::encoded_size(v, p); }
size_t vp_prefix_int_encode_raw(uint8_t *d, uint64_t v, uint8_t p) { return qpack::prefix_int::encode(d, v, p); }
void vp_prefix_int_encode(uint64_t v, uint8_t p, base::buffer *b) { new (b) base::buffer(qpack::prefix_int::encode(v, p)); }
size_t vp_huffman_encoded_size(const char *s, size_t n) { return qpack::huffman::encoded_size(base::string_view(s, n)); }
size_t vp_huffman_encode_raw(uint8_t *d, const char *s, size_t n) { return qpack::huffman::encode(d, base::string_view(s, n)); }
void vp_huffman_encode(const char *s, size_t n, base::buffer *b) { new (b) base::buffer(qpack::huffman::encode(base::string_view(s, n))); }
size_t vp_literal_encoded_size(const char *s, size_t n, uint8_t p) { return qpack::literal::encoded_size(base::string_view(s, n), p); }
size_t vp_literal_encode_raw(uint8_t *d, const char *s, size_t n, uint8_t p) { return qpack::literal::encode(d, base::string_view(s, n), p); }
void vp_literal_encode(const char *s, size_t n, uint8_t p, base::buffer *b) { new (b) base::buffer(qpack::literal::encode(base::string_view(s, n), p)); }
}
