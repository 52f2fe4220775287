#include "vp.hpp"
#include <bnl/http3/client/connection.hpp>
#include <bnl/http3/server/connection.hpp>
using namespace bnl::http3;
using rsender = endpoint::stream::request::sender;
using rhandle = endpoint::stream::request::sender::handle;
using rrecv = endpoint::stream::request::receiver;
using CC = client::connection;
using SC = server::connection;
using cvalue = std::map<uint64_t, CC::request_t>::value_type;
using svalue = std::map<uint64_t, SC::request>::value_type;
namespace {
template<class R> void quic_event(R &r, base::buffer *b, vp_out *o)
{
  if (!vp_fl(r, o)) return;
  quic::event &e = r.value();
  o->v[0] = e == quic::event::type::data ? 0 : 1;
  if (o->v[0] != 0) return;
  o->v[1] = e.data.id; o->v[2] = e.data.fin ? 1 : 0; new (b) base::buffer(std::move(e.data.buffer));
}
template<class R> void http_event(R &r, header *h, base::buffer *b, vp_out *o)
{
  if (!vp_fl(r, o)) return;
  event &e = r.value();
  event::type t = e;
  switch (t) {
    case event::type::settings: o->v[0] = 0; o->v[1] = e.settings.max_header_list_size; o->v[2] = e.settings.num_placeholders;
      o->v[3] = e.settings.qpack_max_table_capacity; o->v[4] = e.settings.qpack_blocked_streams; break;
    case event::type::header: o->v[0] = 1; o->v[1] = e.header.id; o->v[2] = e.header.fin ? 1 : 0; new (h) header(std::move(e.header.header)); break;
    case event::type::body: o->v[0] = 2; o->v[1] = e.body.id; o->v[2] = e.body.fin ? 1 : 0; new (b) base::buffer(std::move(e.body.buffer)); break;
    case event::type::finished: o->v[0] = 3; o->v[1] = e.finished.id; break;
  }
}
template<class G, class R> void gen(R r, G *g, vp_out *o) { if (vp_fl(r, o)) new (g) G(std::move(r).value()); }
template<class R> void han(R r, rhandle *h, vp_out *o) { if (vp_fl(r, o)) new (h) rhandle(std::move(r).value()); }
}
extern "C" {
VPSIZE(qdata, quic::data) VPOFF(qdata_id, quic::data, id) VPOFF(qdata_fin, quic::data, fin) VPOFF(qdata_buffer, quic::data, buffer) VPSIZE(settings, settings)
result<quic::event> vpmk_qevent_ok(uint64_t id, uint64_t fin, base::buffer *b) { return quic::event(quic::data{ id, fin != 0, std::move(*b) }); }
result<quic::event> vpmk_qevent_err(uint64_t e) { return static_cast<error>(e); }
result<event> vpmk_event_settings(const settings *s) { return event(*s); }
result<event> vpmk_event_header(uint64_t id, uint64_t fin, header *h) { return event(event::payload::header{ id, fin != 0, std::move(*h) }); }
result<event> vpmk_event_body(uint64_t id, uint64_t fin, base::buffer *b) { return event(event::payload::body{ id, fin != 0, std::move(*b) }); }
result<event> vpmk_event_finished(uint64_t id) { return event(event::payload::finished{ id }); }
result<event> vpmk_event_err(uint64_t e) { return static_cast<error>(e); }
void vp_header_make(header *h, base::string *n, base::string *v) { new (h) header(std::move(*n), std::move(*v)); }
#define CONN(P, C, V, ROLE) \
  VPSIZE(conn_##P, C) VPOFF(conn_##P##_requests, C, requests_) VPOFF(conn_##P##_csender, C, control_.first) VPOFF(conn_##P##_crecv, C, control_.second) VPOFF(conn_##P##_peer, C, settings_.peer) VPOFF(conn_##P##_local, C, settings_.local) \
  VPSIZE(entry_##P, V) VPOFF(entry_##P##_sender, V, second.first) VPOFF(entry_##P##_receiver, V, second.second) VPSIZE(gen_##P, endpoint::generator<C>) VPOFF(gen_##P##_id, endpoint::generator<C>, id_) VPOFF(gen_##P##_finished, endpoint::generator<C>, finished_) \
  void vp_conn_new_##P(C *c) { new (c) C(); } \
  void vp_conn_send_##P(C *c, base::buffer *b, vp_out *o) { auto r = c->send(); quic_event(r, b, o); } \
  void vp_conn_recv_##P(C *c, uint64_t id, uint64_t fin, base::buffer *b, endpoint::generator<C> *g, vp_out *o) { gen(c->recv(quic::event(quic::data{ id, fin != 0, std::move(*b) })), g, o); } \
  void vp_conn_recverr_##P(C *c, uint64_t id, uint64_t v, endpoint::generator<C> *g, vp_out *o) { gen(c->recv(quic::event(quic::event::payload::error{ quic::application::error::rst_stream, id, v })), g, o); } \
  void vp_conn_process_##P(C *c, uint64_t id, header *h, base::buffer *b, vp_out *o) { auto r = c->process(id); http_event(r, h, b, o); } \
  void vp_gen_new_##P(endpoint::generator<C> *g, uint64_t id, C *c) { new (g) endpoint::generator<C>(id, *c); } \
  uint64_t vp_gen_next_##P(endpoint::generator<C> *g) { return g->next() ? 1 : 0; } \
  void vp_gen_get_##P(endpoint::generator<C> *g, header *h, base::buffer *b, vp_out *o) { auto r = g->get(); http_event(r, h, b, o); } \
  const C *vp_gen_conn_##P(const endpoint::generator<C> *g) { return &g->connection_; } \
  void vp_entry_new_##P(V *v, uint64_t id) { new (const_cast<uint64_t *>(&v->first)) uint64_t(id); new (&v->second.first) ROLE::stream::request::sender(id); new (&v->second.second) ROLE::stream::request::receiver(id); } \
  void vp_entry_move_##P(V *d, V *s) { new (d) V(std::move(*s)); } \
  void vp_entry_emplace_##P(V *d, const uint64_t *k, decltype(V::second) *r) { new (d) V(*k, std::move(*r)); } \
  void vp_entry_delete_##P(V *v) { v->~V(); }
CONN(client, CC, cvalue, client)
CONN(server, SC, svalue, server)
VPOFF(conn_client_next, CC, next_stream_id_)
void vp_conn_request(CC *c, rhandle *h, vp_out *o) { han(c->request(), h, o); }
void vp_conn_response(SC *c, uint64_t id, rhandle *h, vp_out *o) { han(c->response(id), h, o); }
}
