#include "vp.hpp"
#include <bnl/http3/event.hpp>
#include <bnl/quic/event.hpp>
#include <bnl/base/buffer_view.hpp>
#include <bnl/base/string_view.hpp>
#include <bnl/ip/address.hpp>
#include <bnl/ip/endpoint.hpp>
using namespace bnl;
using HE = http3::event;
using QE = quic::event;
using SV = base::string_view;
using BV = base::buffer_view;
using BM = base::buffer_view_mut;
extern "C" {
VPSIZE(hevent, HE)
VPSIZE(qevent, QE)
VPOFF(hevent_header, HE, header.header)
VPOFF(hevent_body, HE, body.buffer)
VPOFF(qevent_data, QE, data.buffer)
VPSIZE(sview, SV)
VPSIZE(bview, BV)
VPSIZE(hview, http3::header_view)
VPSIZE(address, ip::address)
VPSIZE(ipv4, ipv4::address)
VPSIZE(ipv6, ipv6::address)
VPSIZE(endpoint, ip::endpoint)
// events
void vp_hevent_settings(HE *e, uint64_t a, uint64_t b, uint64_t c, uint64_t d)
{ http3::settings s; s.max_header_list_size = a; s.num_placeholders = b; s.qpack_max_table_capacity = c; s.qpack_blocked_streams = d; new (e) HE(s); }
void vp_hevent_header(HE *e, uint64_t id, bool fin, http3::header *h) { new (e) HE(HE::payload::header{ id, fin, std::move(*h) }); }
void vp_hevent_body(HE *e, uint64_t id, bool fin, base::buffer *b) { new (e) HE(HE::payload::body{ id, fin, std::move(*b) }); }
void vp_hevent_finished(HE *e, uint64_t id) { new (e) HE(HE::payload::finished{ id }); }
void vp_hevent_move(HE *d, HE *s) { new (d) HE(std::move(*s)); }
void vp_hevent_delete(HE *e) { e->~event(); }
uint64_t vp_hevent_kind(const HE *e)
{
  HE::type t = *e;
  return t == HE::type::settings ? 0 : t == HE::type::header ? 1 : t == HE::type::body ? 2 : t == HE::type::finished ? 3 : 4;
}
uint64_t vp_hevent_get(const HE *e, uint64_t i)
{
  HE::type t = *e;
  if (t == HE::type::settings)
    return i == 0 ? e->settings.max_header_list_size : i == 1 ? e->settings.num_placeholders : i == 2 ? e->settings.qpack_max_table_capacity : e->settings.qpack_blocked_streams;
  if (t == HE::type::header) return i == 0 ? e->header.id : e->header.fin;
  if (t == HE::type::body) return i == 0 ? e->body.id : e->body.fin;
  return e->finished.id;
}
void vp_qevent_data(QE *e, uint64_t id, bool fin, base::buffer *b) { new (e) QE(QE::payload::data{ id, fin, std::move(*b) }); }
void vp_qevent_error(QE *e, uint64_t t, uint64_t id, uint64_t v) { new (e) QE(QE::payload::error{ static_cast<decltype(quic::application::error::rst_stream)>(t), id, v }); }
void vp_qevent_move(QE *d, QE *s) { new (d) QE(std::move(*s)); }
void vp_qevent_delete(QE *e) { e->~event(); }
uint64_t vp_qevent_kind(const QE *e) { QE::type t = *e; return t == QE::type::data ? 0 : t == QE::type::error ? 1 : 2; }
uint64_t vp_qevent_id(const QE *e) { return e->id(); }
uint64_t vp_qevent_get(const QE *e, uint64_t i)
{
  QE::type t = *e;
  if (t == QE::type::data) return i == 0 ? e->data.id : e->data.fin;
  return i == 0 ? e->error.id : i == 1 ? e->error.type : e->error.value;
}
// views
void vp_sv_new(SV *v, const char *d, size_t n) { new (v) SV(d, n); }
void vp_sv_newz(SV *v, const char *d) { new (v) SV(d); }
const char *vp_sv_data(const SV *v) { return v->data(); }
const char *vp_sv_begin(const SV *v) { return v->begin(); }
const char *vp_sv_end(const SV *v) { return v->end(); }
size_t vp_sv_size(const SV *v) { return v->size(); }
uint64_t vp_sv_empty(const SV *v) { return v->empty() ? 1 : 0; }
uint8_t vp_sv_at(const SV *v, size_t i) { return static_cast<uint8_t>((*v)[i]); }
uint8_t vp_sv_star(const SV *v) { return static_cast<uint8_t>(**v); }
uint64_t vp_sv_eq(const SV *a, const SV *b) { return *a == *b ? 1 : 0; }
uint64_t vp_sv_ne(const SV *a, const SV *b) { return *a != *b ? 1 : 0; }
void vp_bv_new(BV *v, const uint8_t *d, size_t n) { new (v) BV(d, n); }
const uint8_t *vp_bv_data(const BV *v) { return v->data(); }
const uint8_t *vp_bv_begin(const BV *v) { return v->begin(); }
const uint8_t *vp_bv_end(const BV *v) { return v->end(); }
size_t vp_bv_size(const BV *v) { return v->size(); }
uint64_t vp_bv_empty(const BV *v) { return v->empty() ? 1 : 0; }
uint8_t vp_bv_at(const BV *v, size_t i) { return (*v)[i]; }
uint8_t vp_bv_star(const BV *v) { return **v; }
uint64_t vp_bv_eq(const BV *a, const BV *b) { return *a == *b ? 1 : 0; }
uint64_t vp_bv_ne(const BV *a, const BV *b) { return *a != *b ? 1 : 0; }
void vp_bm_new(BM *v, uint8_t *d, size_t n) { new (v) BM(d, n); }
uint8_t *vp_bm_data(BM *v) { return v->data(); }
uint8_t *vp_bm_begin(BM *v) { return v->begin(); }
uint8_t *vp_bm_end(BM *v) { return v->end(); }
size_t vp_bm_size(const BM *v) { return v->size(); }
uint64_t vp_bm_empty(const BM *v) { return v->empty() ? 1 : 0; }
void vp_bm_view(const BM *v, BV *r) { new (r) BV(*v); }
// header fields
void vp_hv_new(http3::header_view *h, const char *n, size_t nl, const char *v, size_t vl) { new (h) http3::header_view(SV(n, nl), SV(v, vl)); }
void vp_hv_name(const http3::header_view *h, SV *r) { new (r) SV(h->name()); }
void vp_hv_value(const http3::header_view *h, SV *r) { new (r) SV(h->value()); }
uint64_t vp_hv_eq(const http3::header_view *a, const http3::header_view *b) { return *a == *b ? 1 : 0; }
uint64_t vp_hv_ne(const http3::header_view *a, const http3::header_view *b) { return *a != *b ? 1 : 0; }
void vp_h_new(http3::header *h, base::string *n, base::string *v) { new (h) http3::header(std::move(*n), std::move(*v)); }
void vp_h_name(const http3::header *h, SV *r) { new (r) SV(h->name()); }
void vp_h_value(const http3::header *h, SV *r) { new (r) SV(h->value()); }
void vp_h_view(const http3::header *h, http3::header_view *r) { new (r) http3::header_view(*h); }
// addresses
void vp_v4_bytes(ipv4::address *a, const uint8_t *d) { new (a) ipv4::address(d); }
void vp_v4_view(ipv4::address *a, const uint8_t *d, size_t n) { new (a) ipv4::address(BV(d, n)); }
void vp_v4_int(ipv4::address *a, uint32_t d) { new (a) ipv4::address(d); }
void vp_v4_get(const ipv4::address *a, BV *r) { new (r) BV(a->bytes()); }
void vp_v6_bytes(ipv6::address *a, const uint8_t *d) { new (a) ipv6::address(d); }
void vp_v6_view(ipv6::address *a, const uint8_t *d, size_t n) { new (a) ipv6::address(BV(d, n)); }
void vp_v6_get(const ipv6::address *a, BV *r) { new (r) BV(a->bytes()); }
void vp_addr_new(ip::address *a) { new (a) ip::address(); }
void vp_addr_v4(ip::address *a, const ipv4::address *b) { new (a) ip::address(*b); }
void vp_addr_v6(ip::address *a, const ipv6::address *b) { new (a) ip::address(*b); }
void vp_addr_view(ip::address *a, const uint8_t *d, size_t n) { new (a) ip::address(BV(d, n)); }
void vp_addr_copy(ip::address *a, const ip::address *b) { new (a) ip::address(*b); }
void vp_addr_get(const ip::address *a, BV *r) { new (r) BV(a->bytes()); }
uint64_t vp_addr_type(const ip::address *a) { ip::address::type t = *a; return t == ip::address::type::ipv4 ? 4 : t == ip::address::type::ipv6 ? 6 : 0; }
uint64_t vp_addr_eq(const ip::address *a, const ip::address *b) { return *a == *b ? 1 : 0; }
void vp_ep_new(ip::endpoint *e, const ip::address *a, uint16_t p) { new (e) ip::endpoint(*a, p); }
const ip::address *vp_ep_address(const ip::endpoint *e) { return &e->address(); }
uint16_t vp_ep_port(const ip::endpoint *e) { return e->port(); }
}
