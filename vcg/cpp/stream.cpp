#include "vp.hpp"
#include <bnl/http3/endpoint/stream/request.hpp>
#include <bnl/http3/endpoint/stream/control.hpp>
#include <bnl/http3/client/stream/request.hpp>
#include <bnl/http3/server/stream/request.hpp>
#include <bnl/http3/client/stream/control.hpp>
#include <bnl/http3/server/stream/control.hpp>
using namespace bnl::http3;
using rsender = endpoint::stream::request::sender;
using rhandle = endpoint::stream::request::sender::handle;
using rrecv = endpoint::stream::request::receiver;
using csender = endpoint::stream::control::sender;
using crecv = endpoint::stream::control::receiver;
namespace {
// lays a QUIC event out flat: kind, stream id, end mark; the bytes go to b
template<class R> void quic_event(R &r, base::buffer *b, vp_out *o)
{
  if (!vp_fl(r, o)) return;
  quic::event &e = r.value();
  o->v[0] = e == quic::event::type::data ? 0 : 1;
  if (o->v[0] != 0) return;
  o->v[1] = e.data.id; o->v[2] = e.data.fin ? 1 : 0; new (b) base::buffer(std::move(e.data.buffer));
}
template<class R> void http_event(R &r, header *h, base::buffer *b, vp_out *o)
{
  if (!vp_fl(r, o)) return;
  event &e = r.value();
  event::type t = e;
  switch (t) {
    case event::type::settings: o->v[0] = 0; o->v[1] = e.settings.max_header_list_size; o->v[2] = e.settings.num_placeholders;
      o->v[3] = e.settings.qpack_max_table_capacity; o->v[4] = e.settings.qpack_blocked_streams; break;
    case event::type::header: o->v[0] = 1; o->v[1] = e.header.id; o->v[2] = e.header.fin ? 1 : 0; new (h) header(std::move(e.header.header)); break;
    case event::type::body: o->v[0] = 2; o->v[1] = e.body.id; o->v[2] = e.body.fin ? 1 : 0; new (b) base::buffer(std::move(e.body.buffer)); break;
    case event::type::finished: o->v[0] = 3; o->v[1] = e.finished.id; break;
  }
}
}
extern "C" {
VPSIZE(rsender, rsender)
VPOFF(rsender_handle, rsender, handle_)
VPOFF(rsender_state, rsender, state_)
VPOFF(rsender_headers, rsender, headers_)
VPOFF(rsender_body, rsender, body_)
VPOFF(rsender_id, rsender, id_)
VPVAL(rsender_headers, rsender::state::headers)
VPVAL(rsender_body, rsender::state::body)
VPVAL(rsender_fin, rsender::state::fin)
VPSIZE(rhandle, rhandle)
VPOFF(rhandle_id, rhandle, id_)
VPOFF(rhandle_sender, rhandle, sender_)
VPSIZE(rrecv_client, client::stream::request::receiver)
VPSIZE(rrecv_server, server::stream::request::receiver)
VPOFF(rrecv_state, rrecv, state_)
VPOFF(rrecv_buffers, rrecv, buffers_)
VPOFF(rrecv_fin, rrecv, fin_received_)
VPOFF(rrecv_headers, rrecv, headers_)
VPOFF(rrecv_body, rrecv, body_)
VPOFF(rrecv_id, rrecv, id_)
VPVAL(rrecv_closed, rrecv::state::closed)
VPVAL(rrecv_headers, rrecv::state::headers)
VPVAL(rrecv_body, rrecv::state::body)
VPVAL(rrecv_fin, rrecv::state::fin)
VPSIZE(csender_client, client::stream::control::sender)
VPSIZE(csender_server, server::stream::control::sender)
VPOFF(csender_state, csender, state_)
VPOFF(csender_settings, csender, settings_)
VPOFF(csender_id, csender, id_)
VPVAL(csender_type, csender::state::type)
VPVAL(csender_settings, csender::state::settings)
VPVAL(csender_idle, csender::state::idle)
VPSIZE(crecv_client, client::stream::control::receiver)
VPSIZE(crecv_server, server::stream::control::receiver)
VPOFF(crecv_state, crecv, state_)
VPOFF(crecv_buffers, crecv, buffers_)
VPOFF(crecv_id, crecv, id_)
VPVAL(crecv_type, crecv::state::type)
VPVAL(crecv_settings, crecv::state::settings)
VPVAL(crecv_active, crecv::state::active)

void vp_rsender_new(rsender *s, uint64_t id) { new (s) rsender(id); }
void vp_rsender_move(rsender *d, rsender *s) { new (d) rsender(std::move(*s)); }
void vp_rsender_assign(rsender *d, rsender *s) { *d = std::move(*s); }
void vp_rsender_delete(rsender *s) { s->~rsender(); }
void vp_rsender_send(rsender *s, base::buffer *b, vp_out *o) { auto r = s->send(); quic_event(r, b, o); }
void vp_rsender_header(rsender *s, const char *n, size_t nl, const char *v, size_t vl, vp_out *o) { auto r = s->header(header_view(base::string_view(n, nl), base::string_view(v, vl))); vp_fl(r, o); }
void vp_rsender_body(rsender *s, base::buffer *b, vp_out *o) { auto r = s->body(std::move(*b)); vp_fl(r, o); }
void vp_rsender_start(rsender *s, vp_out *o) { auto r = s->start(); vp_fl(r, o); }
void vp_rsender_end(rsender *s, vp_out *o) { auto r = s->fin(); vp_fl(r, o); }
uint64_t vp_rsender_finished(const rsender *s) { return s->finished() ? 1 : 0; }
void vp_rhandle_new0(rhandle *h) { new (h) rhandle(); }
void vp_rhandle_new(rhandle *h, rsender *s) { new (h) rhandle(s); }
void vp_rhandle_move(rhandle *d, rhandle *s) { new (d) rhandle(std::move(*s)); }
void vp_rhandle_assign(rhandle *d, rhandle *s) { *d = std::move(*s); }
void vp_rhandle_delete(rhandle *h) { h->~rhandle(); }
uint64_t vp_rhandle_id(const rhandle *h) { return h->id(); }
void vp_rhandle_header(rhandle *s, const char *n, size_t nl, const char *v, size_t vl, vp_out *o) { auto r = s->header(header_view(base::string_view(n, nl), base::string_view(v, vl))); vp_fl(r, o); }
void vp_rhandle_body(rhandle *s, base::buffer *b, vp_out *o) { auto r = s->body(std::move(*b)); vp_fl(r, o); }
void vp_rhandle_start(rhandle *s, vp_out *o) { auto r = s->start(); vp_fl(r, o); }
void vp_rhandle_end(rhandle *s, vp_out *o) { auto r = s->fin(); vp_fl(r, o); }

void vp_rrecv_new_client(rrecv *p, uint64_t id) { new (p) client::stream::request::receiver(id); }
void vp_rrecv_new_server(rrecv *p, uint64_t id) { new (p) server::stream::request::receiver(id); }
void vp_rrecv_start(rrecv *p, vp_out *o) { auto r = p->start(); vp_fl(r, o); }
void vp_rrecv_recv(rrecv *p, uint64_t id, uint64_t fin, base::buffer *b, vp_out *o) { auto r = p->recv(quic::data{ id, fin != 0, std::move(*b) }); vp_fl(r, o); }
void vp_rrecv_process(rrecv *p, header *h, base::buffer *b, vp_out *o) { auto r = p->process(); http_event(r, h, b, o); }
uint64_t vp_rrecv_closed(const rrecv *p) { return p->closed() ? 1 : 0; }
uint64_t vp_rrecv_finished(const rrecv *p) { return p->finished() ? 1 : 0; }

void vp_csender_new_client(csender *p) { new (p) client::stream::control::sender(); }
void vp_csender_new_server(csender *p) { new (p) server::stream::control::sender(); }
void vp_csender_send(csender *p, base::buffer *b, vp_out *o) { auto r = p->send(); quic_event(r, b, o); }
uint64_t vp_csender_setting(const csender *p, uint64_t i) { return i == 0 ? p->settings_.max_header_list_size : i == 1 ? p->settings_.num_placeholders : i == 2 ? p->settings_.qpack_max_table_capacity : p->settings_.qpack_blocked_streams; }
void vp_crecv_new_client(crecv *p) { new (p) client::stream::control::receiver(); }
void vp_crecv_new_server(crecv *p) { new (p) server::stream::control::receiver(); }
uint64_t vp_crecv_id(const crecv *p) { return p->id(); }
void vp_crecv_recv(crecv *p, uint64_t id, uint64_t fin, base::buffer *b, vp_out *o) { auto r = p->recv(quic::data{ id, fin != 0, std::move(*b) }); vp_fl(r, o); }
void vp_crecv_process(crecv *p, header *h, base::buffer *b, vp_out *o) { auto r = p->process(); http_event(r, h, b, o); }
}
