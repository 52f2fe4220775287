// Replay harness: drives the repository's public API from a line protocol and prints what it observes.
// One case per line; every case prints exactly one line.  Built with the address and undefined behaviour sanitizers.
#include <bnl/base/buffer.hpp>
#include <bnl/base/buffers.hpp>
#include <bnl/http3/client/connection.hpp>
#include <bnl/http3/codec/body.hpp>
#include <bnl/http3/codec/frame.hpp>
#include <bnl/http3/codec/headers.hpp>
#include <bnl/http3/codec/qpack.hpp>
#include <bnl/http3/codec/varint.hpp>
#include <bnl/http3/event.hpp>
#include <bnl/http3/server/connection.hpp>
#include <bnl/ip/endpoint.hpp>
#include <bnl/ip/host.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <malloc.h>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
using namespace bnl;
using namespace bnl::http3;
using std::string;
static long live = 0;
void *operator new(size_t n) { void *p = std::malloc(n ? n : 1); if (!p) std::abort(); live++; return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { live--; std::free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

static std::string outs;
static void put(const string &s) { outs += s; outs += ' '; }
static void num(uint64_t v) { put(std::to_string(v)); }
static string hexs(const uint8_t *p, size_t n)
{
  if (n == 0) return "-";
  static const char *d = "0123456789abcdef"; string s;
  for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
  return s;
}
static string hexs(const string &s) { return hexs(reinterpret_cast<const uint8_t *>(s.data()), s.size()); }
static string hexs(base::string_view s) { return hexs(reinterpret_cast<const uint8_t *>(s.data()), s.size()); }
static string hexs(const base::buffer &b) { return hexs(b.data(), b.size()); }
static string hexs(const base::buffers &b)
{
  string s; size_t n = b.size();
  for (size_t i = 0; i < n; i++) s += static_cast<char>(b[i]);
  return hexs(s);
}
static string unhex(const string &h)
{
  string r; if (h == "-") return r;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(v(h[i]) * 16 + v(h[i + 1]));
  return r;
}
static base::buffer mkbuf(const string &s) { return base::buffer(reinterpret_cast<const uint8_t *>(s.data()), s.size()); }
static std::vector<string> split(const string &s, char c)
{
  std::vector<string> r; string cur;
  for (char x : s) { if (x == c) { r.push_back(cur); cur.clear(); } else cur += x; }
  r.push_back(cur); return r;
}
static uint64_t U(const string &s) { return std::strtoull(s.c_str(), nullptr, 10); }
template<class E> static void err(E e) { put("E" + std::to_string(static_cast<uint64_t>(e))); }
// ------------------------------------------------------------------ sequences
// every lookahead is made with something already consumed in front of it, through itself and through a parent
template<class F> static void withseq(const string &kind, const string &chunks, F f)
{
  string all; auto cs = split(chunks, ',');
  for (auto &c : cs) all += unhex(c);
  if (kind == "buffer") {
    base::buffer b = mkbuf(all); f(b); put("rest"); put(hexs(b));
  } else if (kind == "bufferp") { // a buffer that is a slice of a bigger one
    base::buffer big = mkbuf("zzzzzzzzzzzzzzzzzzzzzzzzzzz" + all + "tail"); big.slice(27); base::buffer b = big.slice(all.size());
    f(b); put("rest"); put(hexs(b)); if (hexs(big) != hexs(string("tail"))) put("NEIGHBOUR-CHANGED");
  } else if (kind == "buffers") {
    base::buffers b; for (auto &c : cs) b.push(mkbuf(unhex(c)));
    f(b); put("rest"); put(hexs(b));
  } else if (kind == "bufferla") {
    base::buffer b = mkbuf("QZ" + all); base::buffer::lookahead l0(b); l0.consume(1); base::buffer::lookahead l(l0); l.consume(1);
    f(l); string rest; size_t n = l.size(); for (size_t i = 0; i < n; i++) rest += static_cast<char>(l[i]);
    put("rest"); put(hexs(rest)); if (l.consumed() + n != all.size() + 1 || hexs(b) != hexs("QZ" + all) || l0.consumed() != 1) put("SOURCE-CHANGED");
  } else if (kind == "buffersla") {
    base::buffers b; b.push(mkbuf("QZ")); for (auto &c : cs) b.push(mkbuf(unhex(c)));
    base::buffers::lookahead l0(b); l0.consume(1); base::buffers::lookahead l(l0); l.consume(1);
    f(l); string rest; size_t n = l.size(); for (size_t i = 0; i < n; i++) rest += static_cast<char>(l[i]);
    put("rest"); put(hexs(rest)); if (l.consumed() + n != all.size() + 1 || hexs(b) != hexs("QZ" + all) || l0.consumed() != 1) put("SOURCE-CHANGED");
  }
}
template<class F> static void withbase(const string &kind, const string &chunks, F f)
{
  string all; auto cs = split(chunks, ',');
  for (auto &c : cs) all += unhex(c);
  if (kind == "buffer") { base::buffer b = mkbuf(all); f(b); put("rest"); put(hexs(b)); }
  else { base::buffers b; for (auto &c : cs) b.push(mkbuf(unhex(c))); f(b); put("rest"); put(hexs(b)); }
}
template<class R, class F> static void res(R &r, F f) { if (r.has_value()) { put("ok"); f(r.value()); } else err(r.error()); }
// raw encoding into dirty memory of exactly the predicted size (guards around it)
template<class F> static void raw(size_t size, int first, F f)
{
  std::vector<uint8_t> m(size + 16, 0xA5);
  if (first >= 0 && size) m[8] = static_cast<uint8_t>(first);
  size_t n = f(m.data() + 8);
  bool ok = true;
  for (size_t i = 0; i < 8; i++) if (m[i] != 0xA5 || m[size + 8 + i] != 0xA5) ok = false;
  put("raw"); num(n); put(hexs(m.data() + 8, size)); if (!ok) put("OUT-OF-RANGE-WRITE");
}
static void fprint(const frame &f)
{
  frame::type t = f; num(static_cast<uint64_t>(t));
  switch (t) {
    case frame::type::data: num(f.data.size); break;
    case frame::type::headers: num(f.headers.size); break;
    case frame::type::priority: num(static_cast<uint64_t>(f.priority.prioritized_element_type)); num(static_cast<uint64_t>(f.priority.element_dependency_type));
      num(f.priority.prioritized_element_id); num(f.priority.element_dependency_id); num(f.priority.weight); break;
    case frame::type::cancel_push: num(f.cancel_push.push_id); break;
    case frame::type::settings: num(f.settings.max_header_list_size); num(f.settings.num_placeholders); num(f.settings.qpack_max_table_capacity); num(f.settings.qpack_blocked_streams); break;
    case frame::type::push_promise: num(f.push_promise.push_id); num(f.push_promise.size); break;
    case frame::type::goaway: num(f.goaway.stream_id); break;
    case frame::type::max_push_id: num(f.max_push_id.push_id); break;
    case frame::type::duplicate_push: num(f.duplicate_push.push_id); break;
  }
}
static frame mkframe(const std::vector<string> &a, size_t &i)
{
  auto n = [&] { return U(a.at(i++)); };
  switch (n()) {
    case 0: return frame::payload::data{ n() };
    case 1: return frame::payload::headers{ n() };
    case 2: { frame::payload::priority p{}; p.prioritized_element_type = static_cast<frame::payload::priority::type>(n()); p.element_dependency_type = static_cast<frame::payload::priority::type>(n());
      p.prioritized_element_id = n(); p.element_dependency_id = n(); p.weight = static_cast<uint8_t>(n()); return p; }
    case 3: return frame::payload::cancel_push{ n() };
    case 4: { frame::payload::settings s; s.max_header_list_size = n(); s.num_placeholders = n(); s.qpack_max_table_capacity = n(); s.qpack_blocked_streams = n(); return s; }
    case 5: { uint64_t x = n(); return frame::payload::push_promise{ x, n() }; }
    case 7: return frame::payload::goaway{ n() };
    case 13: return frame::payload::max_push_id{ n() };
    default: return frame::payload::duplicate_push{ n() };
  }
}
static void eprint(const event &e)
{
  event::type t = e;
  switch (t) {
    case event::type::settings: put("settings"); num(e.settings.max_header_list_size); num(e.settings.num_placeholders); num(e.settings.qpack_max_table_capacity); num(e.settings.qpack_blocked_streams); break;
    case event::type::header: put("header"); num(e.header.id); num(e.header.fin); put(hexs(e.header.header.name())); put(hexs(e.header.header.value())); break;
    case event::type::body: put("body"); num(e.body.id); num(e.body.fin); put(hexs(e.body.buffer)); break;
    case event::type::finished: put("finished"); num(e.finished.id); break;
  }
}
static void qprint(const quic::event &e)
{
  quic::event::type t = e;
  if (t == quic::event::type::data) { put("data"); num(e.data.id); num(e.data.fin); put(hexs(e.data.buffer)); }
  else { put("error"); num(static_cast<uint64_t>(e.error.type)); num(e.error.id); num(e.error.value); }
}
static void vres(const http3::result<void> &r) { if (r.has_value()) put("ok"); else err(r.error()); }
// ------------------------------------------------------------------ programs
using Args = std::vector<string>;
static void p_buffer(const Args &a)
{
  std::vector<base::buffer> r(6);
  for (size_t i = 1; i < a.size(); i++) {
    auto t = split(a[i], ':'); const string &o = t[0];
    if (o == "new") r[U(t[1])] = mkbuf(unhex(t[2]));
    else if (o == "chr") { string s = unhex(t[2]); r[U(t[1])] = base::buffer(s.data(), s.size()); }
    else if (o == "view") { string s = unhex(t[2]); r[U(t[1])] = base::buffer(base::buffer_view(reinterpret_cast<const uint8_t *>(s.data()), s.size())); }
    else if (o == "mv") r[U(t[1])] = std::move(r[U(t[2])]);
    else if (o == "self") { base::buffer &x = r[U(t[1])]; base::buffer &y = x; x = std::move(y); }
    else if (o == "ctor") { base::buffer x(std::move(r[U(t[1])])); r[U(t[2])] = std::move(x); }
    else if (o == "sl") { base::buffer x = r[U(t[1])].slice(U(t[2])); r[U(t[3])] = std::move(x); }
    else if (o == "con") r[U(t[1])].consume(U(t[2]));
    else if (o == "cat") { base::buffer x = base::buffer::concat(r[U(t[1])], r[U(t[2])]); r[U(t[3])] = std::move(x); }
    else if (o == "del") r[U(t[1])] = base::buffer();
    else if (o == "set") { base::buffer &b = r[U(t[1])]; b[U(t[2])] = static_cast<uint8_t>(U(t[3])); }
    else if (o == "get") { const base::buffer &b = r[U(t[1])]; num(b[U(t[2])]); num(*b); }
    else if (o == "sz") { num(r[U(t[1])].size()); num(r[U(t[1])].empty()); }
    else if (o == "all") for (auto &b : r) put(hexs(b));
  }
  put("end"); for (auto &b : r) put(hexs(b));
}
template<class L> static void laprint(L &l) { string s; size_t n = l.size(); for (size_t i = 0; i < n; i++) s += static_cast<char>(l[i]); put(hexs(s)); num(l.consumed()); num(l.empty()); if (n) num(*l); }
template<class S> static void p_la(S &seq, const Args &a, size_t i)
{
  std::vector<std::unique_ptr<typename S::lookahead>> ls;
  ls.emplace_back(new typename S::lookahead(seq));
  for (; i < a.size(); i++) {
    auto t = split(a[i], ':');
    if (t[0] == "la") ls.emplace_back(new typename S::lookahead(*ls.at(U(t[1]))));
    else if (t[0] == "lc") ls.at(U(t[1]))->consume(U(t[2]));
    for (auto &l : ls) laprint(*l);
    put(hexs(seq));
  }
}
static void p_buffers(const Args &a)
{
  std::vector<base::buffers> r(3);
  for (size_t i = 1; i < a.size(); i++) {
    auto t = split(a[i], ':'); const string &o = t[0];
    base::buffers &b = r[t.size() > 1 ? U(t[1]) : 0];
    if (o == "push") b.push(mkbuf(unhex(t[2])));
    else if (o == "pushsl") { base::buffer big = mkbuf(unhex(t[2])); while (!big.empty()) b.push(big.slice(std::min<size_t>(big.size(), U(t[3])))); }
    else if (o == "pop") put(hexs(b.pop()));
    else if (o == "sl") put(hexs(b.slice(U(t[2]))));
    else if (o == "con") b.consume(U(t[2]));
    else if (o == "get") { num(b[U(t[2])]); num(*b); }
    else if (o == "sz") { num(b.size()); num(b.empty()); }
    else if (o == "mv") b = std::move(r[U(t[2])]);
    else if (o == "ctor") { base::buffers x(std::move(b)); r[U(t[2])] = std::move(x); }
    else if (o == "front") put(hexs(b.front()));
    else if (o == "back") put(hexs(b.back()));
    else if (o == "lA") { p_la(b, a, i + 1); break; }
  }
  put("end"); for (auto &b : r) put(hexs(b));
}
static void p_bufla(const Args &a)
{
  base::buffer b = mkbuf(unhex(a[1]) + unhex(a[2])); b.consume(unhex(a[1]).size());
  p_la(b, a, 3);
}
template<class D> static void seqdrain(D &d, base::buffers &in) { (void) d; (void) in; }
static void p_bodyenc(const Args &a)
{
  body::encoder e;
  for (size_t i = 1; i < a.size(); i++) {
    auto t = split(a[i], ':');
    if (t[0] == "add") vres(e.add(mkbuf(unhex(t[1]))));
    else if (t[0] == "fin") vres(e.fin());
    else if (t[0] == "enc") { auto r = e.encode(); res(r, [](base::buffer &b) { put(hexs(b)); }); }
    else if (t[0] == "move") { body::encoder x(std::move(e)); e = std::move(x); }
    num(e.finished());
  }
}
static void p_bodydec(const Args &a) // a[1] kind
{
  body::decoder d; base::buffers in; base::buffer one;
  auto go = [&](auto &s) { for (int n = 0; n < 200; n++) { auto r = d.decode(s); if (!r) { err(r.error()); break; } put("ok"); put(hexs(r.value())); num(d.in_progress()); } num(d.in_progress()); };
  if (a[1] == "buffer") { one = mkbuf(unhex(a[2])); go(one); put("rest"); put(hexs(one)); return; }
  for (size_t i = 2; i < a.size(); i++) { if (a[i] == "move") { body::decoder x(std::move(d)); d = std::move(x); continue; } in.push(mkbuf(unhex(a[i]))); go(in); }
  put("rest"); put(hexs(in));
}
static void p_headersenc(const Args &a)
{
  headers::encoder e;
  for (size_t i = 1; i < a.size(); i++) {
    auto t = split(a[i], ':');
    if (t[0] == "add") { string n = unhex(t[1]), v = unhex(t[2]); vres(e.add(header_view(base::string_view(n.data(), n.size()), base::string_view(v.data(), v.size())))); }
    else if (t[0] == "fin") vres(e.fin());
    else if (t[0] == "enc") { auto r = e.encode(); res(r, [](base::buffer &b) { put(hexs(b)); }); }
    else if (t[0] == "move") { headers::encoder x(std::move(e)); e = std::move(x); }
    num(e.finished());
  }
}
static void p_headersdec(const Args &a)
{
  headers::decoder d; base::buffers in; base::buffer one;
  auto go = [&](auto &s) { for (int n = 0; n < 200; n++) { auto r = d.decode(s); if (!r) { err(r.error()); break; } put("ok"); put(hexs(r.value().name())); put(hexs(r.value().value())); num(d.finished()); if (d.finished()) break; } num(d.started()); num(d.finished()); };
  if (a[1] == "buffer") { one = mkbuf(unhex(a[2])); go(one); put("rest"); put(hexs(one)); return; }
  for (size_t i = 2; i < a.size(); i++) { if (a[i] == "move") { headers::decoder x(std::move(d)); d = std::move(x); continue; } in.push(mkbuf(unhex(a[i]))); go(in); }
  put("rest"); put(hexs(in));
}
static void p_qenc(const Args &a)
{
  qpack::encoder e, f;
  for (size_t i = 1; i < a.size(); i++) {
    auto t = split(a[i], ':'); string n = unhex(t[0]), v = unhex(t[1]);
    header_view h(base::string_view(n.data(), n.size()), base::string_view(v.data(), v.size()));
    auto s = f.encoded_size(h); res(s, [](size_t x) { num(x); });
    auto r = e.encode(h); res(r, [](base::buffer &b) { put(hexs(b)); }); num(e.count());
    if (s.has_value()) raw(s.value(), -1, [&](uint8_t *p) { auto q = f.encode(p, h); return q ? q.value() : 0; });
    num(f.count());
  }
}
static void p_qdec(const Args &a)
{
  qpack::decoder d; base::buffers in; base::buffer one;
  auto go = [&](auto &s) { for (int n = 0; n < 400; n++) { auto r = d.decode(s); if (!r) { err(r.error()); break; } put("ok"); put(hexs(r.value().name())); put(hexs(r.value().value())); num(d.count()); } num(d.count()); };
  if (a[1] == "buffer") { one = mkbuf(unhex(a[2])); go(one); put("rest"); put(hexs(one)); return; }
  for (size_t i = 2; i < a.size(); i++) { if (a[i] == "move") { qpack::decoder x(std::move(d)); d = std::move(x); continue; } in.push(mkbuf(unhex(a[i]))); go(in); put("rest"); put(hexs(in)); }
}
static header_view hv(const string &n, const string &v) { return header_view(base::string_view(n.data(), n.size()), base::string_view(v.data(), v.size())); }
using ep_sender = endpoint::stream::request::sender;
static void sendres(http3::result<quic::event> &r) { res(r, [](quic::event &e) { qprint(e); }); }
static void p_sender(const Args &a)
{
  auto s = std::make_unique<ep_sender>(U(a[1]));
  for (size_t i = 2; i < a.size(); i++) {
    auto t = split(a[i], ':');
    if (t[0] == "h") { string n = unhex(t[1]), v = unhex(t[2]); vres(s->header(hv(n, v))); }
    else if (t[0] == "b") vres(s->body(mkbuf(unhex(t[1]))));
    else if (t[0] == "start") vres(s->start());
    else if (t[0] == "fin") vres(s->fin());
    else if (t[0] == "send") { auto r = s->send(); sendres(r); }
    else if (t[0] == "move") s = std::make_unique<ep_sender>(std::move(*s));
    num(s->finished());
  }
}
template<class R> static void p_receiver(const Args &a)
{
  auto s = std::make_unique<R>(U(a[2]));
  for (size_t i = 3; i < a.size(); i++) {
    auto t = split(a[i], ':');
    if (t[0] == "start") vres(s->start());
    else if (t[0] == "move") s = std::make_unique<R>(std::move(*s));
    else if (t[0] == "p") { auto r = s->process(); res(r, [](event &e) { eprint(e); }); }
    else if (t[0] == "r") vres(s->recv(quic::data{ U(a[2]), t[1] == "1", mkbuf(unhex(t[2])) }));
    else if (t[0] == "d") { // drain
      for (int n = 0; n < 400; n++) { auto r = s->process(); if (!r) { err(r.error()); break; } put("ok"); eprint(r.value()); if (r.value() == event::type::finished) break; }
    }
    num(s->finished()); num(s->closed());
  }
}
template<class S, class R> static void p_control(const Args &a)
{
  auto s = std::make_unique<S>(); auto r = std::make_unique<R>();
  num(r->id());
  for (size_t i = 2; i < a.size(); i++) {
    auto t = split(a[i], ':');
    if (t[0] == "send") { auto x = s->send(); sendres(x); }
    else if (t[0] == "r") vres(r->recv(quic::data{ r->id(), t[1] == "1", mkbuf(unhex(t[2])) }));
    else if (t[0] == "p") { auto x = r->process(); res(x, [](event &e) { eprint(e); }); }
    else if (t[0] == "move") { s = std::make_unique<S>(std::move(*s)); r = std::make_unique<R>(std::move(*r)); }
  }
}
// ------------------------------------------------------------------ connections
struct client_ops { static http3::result<endpoint::stream::request::sender::handle> open(client::connection &c, uint64_t) { return c.request(); } };
struct server_ops { static http3::result<endpoint::stream::request::sender::handle> open(server::connection &c, uint64_t id) { return c.response(id); } };
template<class C, class O> static void p_conn(const Args &a)
{
  using handle = endpoint::stream::request::sender::handle;
  using gen = endpoint::generator<C>;
  auto c = std::make_unique<C>();
  std::map<uint64_t, handle> hs; std::unique_ptr<gen> g;
  for (size_t i = 2; i < a.size(); i++) {
    auto t = split(a[i], ':'); const string &o = t[0];
    if (o == "open") { auto r = O::open(*c, t.size() > 2 ? U(t[2]) : 0); if (r) { put("ok"); num(r.value().id()); hs.erase(U(t[1])); hs.emplace(U(t[1]), std::move(r.value())); } else err(r.error()); }
    else if (o == "h") { string n = unhex(t[2]), v = unhex(t[3]); vres(hs[U(t[1])].header(hv(n, v))); }
    else if (o == "b") vres(hs[U(t[1])].body(mkbuf(unhex(t[2]))));
    else if (o == "start") vres(hs[U(t[1])].start());
    else if (o == "fin") vres(hs[U(t[1])].fin());
    else if (o == "drop") hs.erase(U(t[1]));
    else if (o == "send") { auto r = c->send(); sendres(r); }
    else if (o == "flush") { for (int n = 0; n < 400; n++) { auto r = c->send(); if (!r) { err(r.error()); break; } qprint(r.value()); } }
    else if (o == "r" || o == "R") {
      auto r = c->recv(quic::event(quic::data{ U(t[1]), t[2] == "1", mkbuf(unhex(t[3])) }));
      if (!r) { err(r.error()); continue; }
      put("ok"); g = std::make_unique<gen>(std::move(r.value()));
      if (o == "r") { for (int n = 0; n < 400; n++) { if (!g->next()) { put("stop"); break; } auto e = g->get(); if (!e) { err(e.error()); break; } eprint(e.value()); } }
    }
    else if (o == "N") { if (!g) { put("nogen"); continue; } if (!g->next()) { put("stop"); continue; } auto e = g->get(); res(e, [](event &x) { eprint(x); }); }
    else if (o == "X") { auto r = c->recv(quic::event(quic::event::payload::error{ quic::application::error::rst_stream, U(t[1]), 7 })); if (r) put("ok"); else err(r.error()); }
    else if (o == "move") { g.reset(); c = std::make_unique<C>(std::move(*c)); }
  }
}
static void p_handles(const Args &a)
{
  using handle = endpoint::stream::request::sender::handle;
  std::map<uint64_t, std::unique_ptr<ep_sender>> s; std::map<uint64_t, std::unique_ptr<handle>> h;
  for (size_t i = 1; i < a.size(); i++) {
    auto t = split(a[i], ':'); const string &o = t[0]; uint64_t x = t.size() > 1 ? U(t[1]) : 0, y = t.size() > 2 ? U(t[2]) : 0;
    if (o == "ns") s[x] = std::make_unique<ep_sender>(y);
    else if (o == "ds") s.erase(x);
    else if (o == "ms") { if (s.count(y)) s[x] = std::make_unique<ep_sender>(std::move(*s[y])); }
    else if (o == "as") { if (s.count(x) && s.count(y)) *s[x] = std::move(*s[y]); }
    else if (o == "nh") { if (s.count(y)) h[x] = std::make_unique<handle>(s[y].get()); }
    else if (o == "eh") h[x] = std::make_unique<handle>();
    else if (o == "dh") h.erase(x);
    else if (o == "mh") { if (h.count(y)) h[x] = std::make_unique<handle>(std::move(*h[y])); }
    else if (o == "ah") { if (h.count(x) && h.count(y)) *h[x] = std::move(*h[y]); }
    else if (o == "hdr") { if (h.count(x)) vres(h[x]->header(hv("a", "b"))); }
    else if (o == "bd") { if (h.count(x)) vres(h[x]->body(mkbuf(unhex(t[2])))); }
    else if (o == "st") { if (h.count(x)) vres(h[x]->start()); }
    else if (o == "fn") { if (h.count(x)) vres(h[x]->fin()); }
    else if (o == "id") { if (h.count(x)) num(h[x]->id()); }
    else if (o == "snd") { if (s.count(x)) { for (int n = 0; n < 50; n++) { auto r = s[x]->send(); if (!r) { err(r.error()); break; } qprint(r.value()); } } }
  }
}
static void p_events(const Args &a)
{
  auto moves = [&](auto e, auto pr) { auto f(std::move(e)); auto g(std::move(f)); pr(g); auto h(std::move(g)); pr(h); };
  auto t = a;
  if (a[1] == "settings") { settings s; s.max_header_list_size = U(a[2]); s.num_placeholders = U(a[3]); s.qpack_max_table_capacity = U(a[4]); s.qpack_blocked_streams = U(a[5]); moves(event(s), eprint);
    for (auto &p : s.array()) { num(p.first); num(p.second); } }
  else if (a[1] == "header") { header h(unhex(a[4]), unhex(a[5])); header c(h); moves(event(event::payload::header{ U(a[2]), a[3] == "1", std::move(h) }), eprint);
    put(hexs(c.name())); put(hexs(c.value())); header_view v = c; put(hexs(v.name())); put(hexs(v.value())); header d; d = c; num(header_view(d) == v); num(header_view(d) != v); num(header_is_lowercase(v)); }
  else if (a[1] == "body") moves(event(event::payload::body{ U(a[2]), a[3] == "1", mkbuf(unhex(a[4])) }), eprint);
  else if (a[1] == "finished") moves(event(event::payload::finished{ U(a[2]) }), eprint);
  else if (a[1] == "qdata") { quic::event e(quic::data{ U(a[2]), a[3] == "1", mkbuf(unhex(a[4])) }); num(e.id()); moves(std::move(e), qprint); }
  else if (a[1] == "qerror") { quic::event e(quic::event::payload::error{ static_cast<decltype(quic::application::error::rst_stream)>(U(a[2])), U(a[3]), U(a[4]) }); num(e.id()); moves(std::move(e), qprint); }
  else if (a[1] == "heq") { string p = unhex(a[2]), q = unhex(a[3]), r = unhex(a[4]), s = unhex(a[5]); num(hv(p, q) == hv(r, s)); num(hv(p, q) != hv(r, s)); num(header_is_lowercase(hv(p, q))); }
  else if (a[1] == "veq") { string p = unhex(a[2]), q = unhex(a[3]); base::buffer_view x(reinterpret_cast<const uint8_t *>(p.data()), p.size()), y(reinterpret_cast<const uint8_t *>(q.data()), q.size());
    num(x == y); num(x != y); base::string_view u(p), w(q); num(u == w); num(u != w); num(u.size()); num(u.empty()); num(x.size()); num(x.empty()); put(hexs(u)); put(hexs(x.data(), x.size())); if (!p.empty()) { num(x[p.size() - 1]); num(*x); num(static_cast<uint8_t>(u[p.size() - 1])); num(static_cast<uint8_t>(*u)); } num(static_cast<uint64_t>(x.end() - x.begin())); num(static_cast<uint64_t>(u.end() - u.begin())); }
  else if (a[1] == "ip") { string p = unhex(a[2]), q = unhex(a[3]); ip::address x(base::buffer_view(reinterpret_cast<const uint8_t *>(p.data()), p.size())), y(base::buffer_view(reinterpret_cast<const uint8_t *>(q.data()), q.size()));
    num(x == y); put(hexs(x.bytes().data(), x.bytes().size())); num(static_cast<uint64_t>(static_cast<ip::address::type>(x))); ip::endpoint e(x, static_cast<uint16_t>(U(a[4]))); ip::endpoint f; f = e; put(hexs(f.address().bytes().data(), f.address().bytes().size())); num(f.port()); num(f.address() == x);
    if (p.size() == 4) { uint32_t v; std::memcpy(&v, p.data(), 4); ipv4::address z(v); put(hexs(z.bytes().data(), 4)); ipv4::address z2(reinterpret_cast<const uint8_t *>(p.data())); num(ip::address(z2) == x); } else { ipv6::address z2(reinterpret_cast<const uint8_t *>(p.data())); num(ip::address(z2) == x); } ip::address dflt; put(hexs(dflt.bytes().data(), dflt.bytes().size())); }
  else if (a[1] == "host") { string p = unhex(a[2]); ip::host h(p); ip::host g(h); ip::host f; f = std::move(g); put(hexs(f.name())); put(hexs(h.name())); }
  else if (a[1] == "feq") { size_t i = 2; frame f = mkframe(a, i); frame g = mkframe(a, i); num(f == g); num(f != g); frame k(f); fprint(k); num(k == f); }
}
static void p_text(const Args &a) // value types through their text form, qpack encode prefix bits, misc
{
  (void) a;
}
#ifdef VP_QUIC
// the key derivation of the TLS library is replaced by a function that prints what it is given and returns a fixed scramble of it
#include <bnl/quic/crypto.hpp>
namespace bnl { namespace quic {
static result<base::buffer> derive(char w, base::buffer_view s, base::buffer_view i, size_t n)
{
  string x(reinterpret_cast<const char *>(s.data()), s.size()), y(reinterpret_cast<const char *>(i.data()), i.size()); put(string(1, w)); put(hexs(x)); put(hexs(y)); num(n);
  if (!x.empty() && x[0] == '\xee') return static_cast<error>(7);
  string d = x + y; for (char &c : d) c = static_cast<char>(c ^ 0x5a); return mkbuf(d);
}
result<base::buffer> crypto::hkdf_extract(base::buffer_view s, base::buffer_view t) { return derive('x', s, t, 0); }
result<base::buffer> crypto::hkdf_expand(base::buffer_view s, base::buffer_view i, size_t n) { return derive('e', s, i, n); }
} }
static void p_quic(const Args &a)
{
  using QC = quic::crypto; uint64_t k = U(a[1]), h = U(a[2]); const string &o = a[3]; string s = unhex(a[4]), t = a.size() > 5 ? unhex(a[5]) : string(); auto bv = [](const string &x) { return base::buffer_view(reinterpret_cast<const uint8_t *>(x.data()), x.size()); };
  QC c(k == 0 ? QC::aead::aes_128_gcm : k == 1 ? QC::aead::aes_256_gcm : QC::aead::chacha20_poly1305, h == 0 ? QC::hash::sha256 : QC::hash::sha384);
  auto show = [](auto &&r) { if (r) put(hexs(r.value())); else { put("err"); num(static_cast<uint64_t>(r.error() == static_cast<quic::error>(7))); } };
  if (o == "label") show(c.hkdf_expand_label(bv(s), bv(t), U(a[6])));
  else if (o == "client") show(c.client_initial_secret(bv(s)));
  else if (o == "server") show(c.server_initial_secret(bv(s)));
  else if (o == "update") show(c.update_secret(bv(s)));
  else if (o == "initial") show(c.initial_secret(bv(s), bv(t)));
  else if (o == "data") show(c.packet_protection_data(bv(s)));
  else if (o == "iv") show(c.packet_protection_iv(bv(s)));
  else if (o == "hp") show(c.packet_protection_hp(bv(s)));
  else if (o == "key") { auto r = c.packet_protection_key(bv(s)); if (!r) { put("err"); num(static_cast<uint64_t>(r.error() == static_cast<quic::error>(7))); } else { QC::key &q = r.value(); auto v = [](base::buffer_view x) { put(hexs(string(reinterpret_cast<const char *>(x.data()), x.size()))); }; v(q.data()); v(q.iv()); v(q.hp()); } }
  else if (o == "sizes") { num(c.aead_overhead()); num(c.hash_size(h == 0 ? QC::hash::sha256 : QC::hash::sha384)); num(c.aead_key_size(k == 0 ? QC::aead::aes_128_gcm : k == 1 ? QC::aead::aes_256_gcm : QC::aead::chacha20_poly1305)); }
}
#endif
static void run(const Args &a)
{
  const string &o = a[0];
  if (o == "ve") {
    uint64_t v = U(a[1]); auto s = varint::encoded_size(v); res(s, [](size_t x) { num(x); });
    auto b = varint::encode(v); res(b, [](base::buffer &x) { put(hexs(x)); });
    raw(s ? s.value() : 8, -1, [&](uint8_t *p) { auto r = varint::encode(p, v); if (!r) { err(r.error()); return size_t(0); } return static_cast<size_t>(r.value()); });
  } else if (o == "vd") withseq(a[1], a[2], [&](auto &s) { auto r = varint::decode(s); res(r, [](uint64_t x) { num(x); }); });
  else if (o == "pe") {
    uint64_t v = U(a[1]); uint8_t p = static_cast<uint8_t>(U(a[2])); size_t s = qpack::prefix_int::encoded_size(v, p); num(s);
    base::buffer b = qpack::prefix_int::encode(v, p); put(hexs(b)); raw(s, static_cast<int>(U(a[3])), [&](uint8_t *d) { return qpack::prefix_int::encode(d, v, p); });
  } else if (o == "pd") withseq(a[1], a[3], [&](auto &s) { auto r = qpack::prefix_int::decode(s, static_cast<uint8_t>(U(a[2]))); res(r, [](uint64_t x) { num(x); }); });
  else if (o == "he") {
    string v = unhex(a[1]); base::string_view w(v.data(), v.size()); size_t s = qpack::huffman::encoded_size(w); num(s); put(hexs(qpack::huffman::encode(w)));
    raw(s, -1, [&](uint8_t *d) { return qpack::huffman::encode(d, w); });
  } else if (o == "hd") withseq(a[1], a[3], [&](auto &s) { auto r = qpack::huffman::decode(s, U(a[2])); res(r, [](base::string &x) { put(hexs(x)); }); });
  else if (o == "le") {
    string v = unhex(a[1]); base::string_view w(v.data(), v.size()); uint8_t p = static_cast<uint8_t>(U(a[2])); size_t s = qpack::literal::encoded_size(w, p); num(s);
    put(hexs(qpack::literal::encode(w, p))); raw(s, static_cast<int>(U(a[3])), [&](uint8_t *d) { return qpack::literal::encode(d, w, p); });
  } else if (o == "ld") withseq(a[1], a[3], [&](auto &s) { auto r = qpack::literal::decode(s, static_cast<uint8_t>(U(a[2]))); res(r, [](base::string &x) { put(hexs(x)); }); });
  else if (o == "fe") {
    size_t i = 1; frame f = mkframe(a, i); auto s = frame::encoded_size(f); res(s, [](size_t x) { num(x); }); auto b = frame::encode(f); res(b, [](base::buffer &x) { put(hexs(x)); });
    if (s) raw(s.value(), -1, [&](uint8_t *p) { auto r = frame::encode(p, f); if (!r) { err(r.error()); return size_t(0); } return static_cast<size_t>(r.value()); });
    else { uint8_t m[128]; auto r = frame::encode(m, f); if (!r) err(r.error()); else put("ok"); }
  } else if (o == "fd") withseq(a[1], a[2], [&](auto &s) { auto r = frame::decode(s); res(r, [](frame &f) { fprint(f); }); });
  else if (o == "fp") withseq(a[1], a[2], [&](auto &s) { const auto &cs = s; auto r = frame::peek(cs); res(r, [](frame::type t) { num(static_cast<uint64_t>(t)); }); });
  else if (o == "B") p_buffer(a);
  else if (o == "Q") p_buffers(a);
  else if (o == "BL") p_bufla(a);
  else if (o == "be") p_bodyenc(a);
  else if (o == "bd") p_bodydec(a);
  else if (o == "hE") p_headersenc(a);
  else if (o == "hD") p_headersdec(a);
  else if (o == "qe") p_qenc(a);
  else if (o == "qd") p_qdec(a);
  else if (o == "S") p_sender(a);
  else if (o == "R") { if (a[1] == "client") p_receiver<client::stream::request::receiver>(a); else p_receiver<server::stream::request::receiver>(a); }
  else if (o == "K") { if (a[1] == "client") p_control<client::stream::control::sender, client::stream::control::receiver>(a); else p_control<server::stream::control::sender, server::stream::control::receiver>(a); }
  else if (o == "C") { if (a[1] == "client") p_conn<client::connection, client_ops>(a); else p_conn<server::connection, server_ops>(a); }
  else if (o == "H") p_handles(a);
  else if (o == "V") p_events(a);
#ifdef VP_QUIC
  else if (o == "X") p_quic(a);
#endif
  else put("?");
}
int main()
{
  std::ios::sync_with_stdio(true);
  string line; line.reserve(1 << 20); outs.reserve(1 << 22);
  while (std::getline(std::cin, line)) {
    Args a = split(line, ' '); outs.clear();
    long before = live;
    { long b2 = live; try { run(a); } catch (const std::exception &e) { put(string("EXC:") + e.what()); } (void) b2; }
    long after = live;
    // outs may have grown: it was reserved, so the difference is what the case leaked
    if (after != before) { outs += "LEAK"; outs += std::to_string(after - before); }
    std::fputs(outs.c_str(), stdout); std::fputc('\n', stdout); std::fflush(stdout);
  }
}
