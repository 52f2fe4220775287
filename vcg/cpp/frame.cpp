#include "vp.hpp"
#include <bnl/http3/codec/frame.hpp>
#include <cstring>
using namespace bnl::http3;
namespace bnl { namespace http3 {
template<typename L> result<frame> decode_single(L &lookahead) noexcept;
} }
extern "C" {
VPSIZE(frame, frame)
void vp_frame_mk_data(frame *f, uint64_t a) { new (f) frame(frame::payload::data{ a }); }
void vp_frame_mk_headers(frame *f, uint64_t a) { new (f) frame(frame::payload::headers{ a }); }
void vp_frame_mk_priority(frame *f, uint8_t a, uint8_t b, uint64_t c, uint64_t d, uint8_t e)
{
  frame::payload::priority p{};
  p.prioritized_element_type = static_cast<frame::payload::priority::type>(a);
  p.element_dependency_type = static_cast<frame::payload::priority::type>(b);
  p.prioritized_element_id = c; p.element_dependency_id = d; p.weight = e;
  new (f) frame(p);
}
void vp_frame_mk_cancel_push(frame *f, uint64_t a) { new (f) frame(frame::payload::cancel_push{ a }); }
void vp_frame_mk_settings(frame *f, uint64_t a, uint64_t b, uint64_t c, uint64_t d)
{
  settings s; s.max_header_list_size = a; s.num_placeholders = b; s.qpack_max_table_capacity = c; s.qpack_blocked_streams = d;
  new (f) frame(s);
}
void vp_frame_mk_push_promise(frame *f, uint64_t a, uint64_t b) { new (f) frame(frame::payload::push_promise{ a, b }); }
void vp_frame_mk_goaway(frame *f, uint64_t a) { new (f) frame(frame::payload::goaway{ a }); }
void vp_frame_mk_max_push_id(frame *f, uint64_t a) { new (f) frame(frame::payload::max_push_id{ a }); }
void vp_frame_mk_duplicate_push(frame *f, uint64_t a) { new (f) frame(frame::payload::duplicate_push{ a }); }
uint64_t vp_frame_type(const frame *f) { return static_cast<uint64_t>(static_cast<frame::type>(*f)); }
// fields, per type
uint64_t vp_frame_get_data(const frame *f, uint64_t) { return f->data.size; }
uint64_t vp_frame_get_headers(const frame *f, uint64_t) { return f->headers.size; }
uint64_t vp_frame_get_priority(const frame *f, uint64_t i)
{
  const frame::payload::priority &p = f->priority;
  return i == 0 ? static_cast<uint64_t>(p.prioritized_element_type) : i == 1 ? static_cast<uint64_t>(p.element_dependency_type)
    : i == 2 ? p.prioritized_element_id : i == 3 ? p.element_dependency_id : p.weight;
}
uint64_t vp_frame_get_cancel_push(const frame *f, uint64_t) { return f->cancel_push.push_id; }
uint64_t vp_frame_get_settings(const frame *f, uint64_t i)
{
  return i == 0 ? f->settings.max_header_list_size : i == 1 ? f->settings.num_placeholders
    : i == 2 ? f->settings.qpack_max_table_capacity : f->settings.qpack_blocked_streams;
}
uint64_t vp_frame_get_push_promise(const frame *f, uint64_t i) { return i == 0 ? f->push_promise.push_id : f->push_promise.size; }
uint64_t vp_frame_get_goaway(const frame *f, uint64_t) { return f->goaway.stream_id; }
uint64_t vp_frame_get_max_push_id(const frame *f, uint64_t) { return f->max_push_id.push_id; }
uint64_t vp_frame_get_duplicate_push(const frame *f, uint64_t) { return f->duplicate_push.push_id; }
VPMKS(frame_type, frame::type)
http3::result<frame> vpmk_frame_ok(const frame *v) { return *v; }
http3::result<frame> vpmk_frame_err(uint64_t e) { return static_cast<http3::error>(e); }

void vp_frame_encoded_size(const frame *f, vp_out *o) { auto r = frame::encoded_size(*f); if (vp_fl(r, o)) o->v[0] = r.value(); }
void vp_frame_encode_raw(uint8_t *d, const frame *f, vp_out *o) { auto r = frame::encode(d, *f); if (vp_fl(r, o)) o->v[0] = r.value(); }
void vp_frame_encode(const frame *f, base::buffer *b, vp_out *o) { auto r = frame::encode(*f); if (vp_fl(r, o)) new (b) base::buffer(std::move(r).value()); }
bool vp_frame_eq(const frame *a, const frame *b) { return *a == *b; }
bool vp_frame_ne(const frame *a, const frame *b) { return *a != *b; }
#define SEQ(NAME, T) \
void vp_frame_decode_##NAME(T *s, frame *f, vp_out *o) { auto r = frame::decode(*s); if (vp_fl(r, o)) new (f) frame(r.value()); } \
void vp_frame_peek_##NAME(const T *s, vp_out *o) { auto r = frame::peek(*s); if (vp_fl(r, o)) o->v[0] = static_cast<uint64_t>(r.value()); }
SEQ(buffer, base::buffer)
SEQ(buffers, base::buffers)
SEQ(bufferla, base::buffer::lookahead)
SEQ(buffersla, base::buffers::lookahead)
void vp_frame_single_bufferla(base::buffer::lookahead *s, frame *f, vp_out *o) { auto r = http3::decode_single(*s); if (vp_fl(r, o)) new (f) frame(r.value()); }
void vp_frame_single_buffersla(base::buffers::lookahead *s, frame *f, vp_out *o) { auto r = http3::decode_single(*s); if (vp_fl(r, o)) new (f) frame(r.value()); }
}
