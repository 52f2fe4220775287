#include "vp.hpp"
#include <bnl/http3/codec/qpack.hpp>
#include <cstring>
using namespace bnl::http3;
extern "C" {
VPSIZE(qpack_encoder, qpack::encoder)
VPSIZE(qpack_decoder, qpack::decoder)
VPSIZE(header, header)
VPOFF(qpack_encoder_state, qpack::encoder, state_)
VPOFF(qpack_encoder_count, qpack::encoder, count_)
VPOFF(qpack_decoder_state, qpack::decoder, state_)
VPOFF(qpack_decoder_count, qpack::decoder, count_)
VPOFF(header_name, header, name_)
VPOFF(header_value, header, value_)
VPVAL(qpack_encoder_prefix, qpack::encoder::state::prefix)
VPVAL(qpack_encoder_header, qpack::encoder::state::header)
VPVAL(qpack_decoder_prefix, qpack::decoder::state::prefix)
VPVAL(qpack_decoder_header, qpack::decoder::state::header)
VPMK(header, header)
void vp_qpack_encoder_new(qpack::encoder *e) { new (e) qpack::encoder(); }
void vp_qpack_decoder_new(qpack::decoder *e) { new (e) qpack::decoder(); }
uint64_t vp_qpack_encoder_count(const qpack::encoder *e) { return e->count(); }
uint64_t vp_qpack_decoder_count(const qpack::decoder *e) { return e->count(); }
#define H header_view(base::string_view(n, nl), base::string_view(v, vl))
void vp_qpack_encoded_size(const qpack::encoder *e, const char *n, size_t nl, const char *v, size_t vl, vp_out *o) { auto r = e->encoded_size(H); if (vp_fl(r, o)) o->v[0] = r.value(); }
void vp_qpack_encode_raw(qpack::encoder *e, uint8_t *d, const char *n, size_t nl, const char *v, size_t vl, vp_out *o) { auto r = e->encode(d, H); if (vp_fl(r, o)) o->v[0] = r.value(); }
void vp_qpack_encode(qpack::encoder *e, const char *n, size_t nl, const char *v, size_t vl, base::buffer *b, vp_out *o) { auto r = e->encode(H); if (vp_fl(r, o)) new (b) base::buffer(std::move(r).value()); }
uint64_t vp_header_is_lowercase(const char *n, size_t nl, const char *v, size_t vl) { return header_is_lowercase(H) ? 1 : 0; }
void vp_qpack_decode_buffer(qpack::decoder *q, base::buffer *s, header *h, vp_out *o) { auto r = q->decode(*s); if (vp_fl(r, o)) new (h) header(std::move(r).value()); }
void vp_qpack_decode_buffers(qpack::decoder *q, base::buffers *s, header *h, vp_out *o) { auto r = q->decode(*s); if (vp_fl(r, o)) new (h) header(std::move(r).value()); }
}
