#include "vp.hpp"
#include <bnl/http3/codec/body.hpp>
#include <bnl/http3/codec/headers.hpp>
#include <bnl/http3/codec/frame.hpp>
using namespace bnl::http3;
extern "C" {
VPSIZE(body_encoder, body::encoder)
VPOFF(body_encoder_state, body::encoder, state_)
VPOFF(body_encoder_fin, body::encoder, fin_)
VPOFF(body_encoder_buffers, body::encoder, buffers_)
VPVAL(body_encoder_frame, body::encoder::state::frame)
VPVAL(body_encoder_data, body::encoder::state::data)
VPVAL(body_encoder_fin, body::encoder::state::fin)
VPSIZE(body_decoder, body::decoder)
VPOFF(body_decoder_state, body::decoder, state_)
VPOFF(body_decoder_remaining, body::decoder, remaining_)
VPVAL(body_decoder_frame, body::decoder::state::frame)
VPVAL(body_decoder_data, body::decoder::state::data)
VPSIZE(headers_encoder, headers::encoder)
VPOFF(headers_encoder_state, headers::encoder, state_)
VPOFF(headers_encoder_buffers, headers::encoder, buffers_)
VPOFF(headers_encoder_qpack, headers::encoder, qpack_)
VPVAL(headers_encoder_idle, headers::encoder::state::idle)
VPVAL(headers_encoder_frame, headers::encoder::state::frame)
VPVAL(headers_encoder_qpack, headers::encoder::state::qpack)
VPVAL(headers_encoder_fin, headers::encoder::state::fin)
VPSIZE(headers_decoder, headers::decoder)
VPOFF(headers_decoder_state, headers::decoder, state_)
VPOFF(headers_decoder_size, headers::decoder, headers_size_)
VPOFF(headers_decoder_qpack, headers::decoder, qpack_)
VPVAL(headers_decoder_frame, headers::decoder::state::frame)
VPVAL(headers_decoder_qpack, headers::decoder::state::qpack)
VPVAL(headers_decoder_fin, headers::decoder::state::fin)
void vp_body_encoder_new(body::encoder *e) { new (e) body::encoder(); }
void vp_body_encoder_add(body::encoder *e, base::buffer *b, vp_out *o) { auto r = e->add(std::move(*b)); vp_fl(r, o); }
void vp_body_encoder_end(body::encoder *e, vp_out *o) { auto r = e->fin(); vp_fl(r, o); }
uint64_t vp_body_encoder_finished(const body::encoder *e) { return e->finished() ? 1 : 0; }
void vp_body_encoder_encode(body::encoder *e, base::buffer *b, vp_out *o) { auto r = e->encode(); if (vp_fl(r, o)) new (b) base::buffer(std::move(r).value()); }
void vp_body_decoder_new(body::decoder *e) { new (e) body::decoder(); }
uint64_t vp_body_decoder_in_progress(const body::decoder *e) { return e->in_progress() ? 1 : 0; }
void vp_headers_encoder_new(headers::encoder *e) { new (e) headers::encoder(); }
void vp_headers_encoder_add(headers::encoder *e, const char *n, size_t nl, const char *v, size_t vl, vp_out *o) { auto r = e->add(header_view(base::string_view(n, nl), base::string_view(v, vl))); vp_fl(r, o); }
void vp_headers_encoder_start(headers::encoder *e, vp_out *o) { auto r = e->fin(); vp_fl(r, o); }
uint64_t vp_headers_encoder_finished(const headers::encoder *e) { return e->finished() ? 1 : 0; }
void vp_headers_encoder_encode(headers::encoder *e, base::buffer *b, vp_out *o) { auto r = e->encode(); if (vp_fl(r, o)) new (b) base::buffer(std::move(r).value()); }
void vp_headers_decoder_new(headers::decoder *e) { new (e) headers::decoder(); }
uint64_t vp_headers_decoder_started(const headers::decoder *e) { return e->started() ? 1 : 0; }
uint64_t vp_headers_decoder_finished(const headers::decoder *e) { return e->finished() ? 1 : 0; }
#define SEQ(NAME, T) \
void vp_body_decode_##NAME(body::decoder *d, T *s, base::buffer *b, vp_out *o) { auto r = d->decode(*s); if (vp_fl(r, o)) new (b) base::buffer(std::move(r).value()); } \
void vp_headers_decode_##NAME(headers::decoder *d, T *s, header *h, vp_out *o) { auto r = d->decode(*s); if (vp_fl(r, o)) new (h) header(std::move(r).value()); }
SEQ(buffer, base::buffer)
SEQ(buffers, base::buffers)
}
