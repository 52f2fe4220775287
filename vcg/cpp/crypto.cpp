#include "vp.hpp"
#include <bnl/quic/crypto.hpp>
using QC = quic::crypto;
using BV = base::buffer_view;
template<class R> static void qb(R r, base::buffer *b, vp_out *o) { if (vp_fl(r, o)) new (b) base::buffer(std::move(r).value()); }
static QC mk(uint64_t a, uint64_t h)
{
  return QC(a == 0 ? QC::aead::aes_128_gcm : a == 1 ? QC::aead::aes_256_gcm : QC::aead::chacha20_poly1305, h == 0 ? QC::hash::sha256 : QC::hash::sha384);
}
extern "C" {
quic::result<base::buffer> vpmk_qbuffer_ok(base::buffer *v) { return std::move(*v); }
quic::result<base::buffer> vpmk_qbuffer_err(uint64_t e) { return static_cast<quic::error>(e); }
VPSIZE(qcrypto, QC)
VPSIZE(qkey, QC::key)
void vp_qc_new(QC *c, uint64_t a, uint64_t h) { new (c) QC(mk(a, h)); }
void vp_qc_expand_label(QC *c, const uint8_t *s, size_t sn, const uint8_t *l, size_t ln, size_t n, base::buffer *b, vp_out *o) { qb(c->hkdf_expand_label(BV(s, sn), BV(l, ln), n), b, o); }
void vp_qc_update(QC *c, const uint8_t *s, size_t sn, base::buffer *b, vp_out *o) { qb(c->update_secret(BV(s, sn)), b, o); }
void vp_qc_client(QC *c, const uint8_t *s, size_t sn, base::buffer *b, vp_out *o) { qb(c->client_initial_secret(BV(s, sn)), b, o); }
void vp_qc_server(QC *c, const uint8_t *s, size_t sn, base::buffer *b, vp_out *o) { qb(c->server_initial_secret(BV(s, sn)), b, o); }
void vp_qc_initial(QC *c, const uint8_t *s, size_t sn, const uint8_t *t, size_t tn, base::buffer *b, vp_out *o) { qb(c->initial_secret(BV(s, sn), BV(t, tn)), b, o); }
void vp_qc_data(QC *c, const uint8_t *s, size_t sn, base::buffer *b, vp_out *o) { qb(c->packet_protection_data(BV(s, sn)), b, o); }
void vp_qc_iv(QC *c, const uint8_t *s, size_t sn, base::buffer *b, vp_out *o) { qb(c->packet_protection_iv(BV(s, sn)), b, o); }
void vp_qc_hp(QC *c, const uint8_t *s, size_t sn, base::buffer *b, vp_out *o) { qb(c->packet_protection_hp(BV(s, sn)), b, o); }
void vp_qc_key(QC *c, const uint8_t *s, size_t sn, QC::key *k, vp_out *o) { auto r = c->packet_protection_key(BV(s, sn)); if (vp_fl(r, o)) new (k) QC::key(std::move(r).value()); }
void vp_qkey_data(const QC::key *k, vp_out *o, const uint8_t **p) { BV v = k->data(); *p = v.data(); o->v[0] = v.size(); }
void vp_qkey_iv(const QC::key *k, vp_out *o, const uint8_t **p) { BV v = k->iv(); *p = v.data(); o->v[0] = v.size(); }
void vp_qkey_hp(const QC::key *k, vp_out *o, const uint8_t **p) { BV v = k->hp(); *p = v.data(); o->v[0] = v.size(); }
uint64_t vp_qc_overhead(const QC *c) { return c->aead_overhead(); }
uint64_t vp_qc_hash_size(const QC *c, uint64_t h) { return c->hash_size(h == 0 ? QC::hash::sha256 : QC::hash::sha384); }
uint64_t vp_qc_key_size(const QC *c, uint64_t a) { return c->aead_key_size(a == 0 ? QC::aead::aes_128_gcm : a == 1 ? QC::aead::aes_256_gcm : QC::aead::chacha20_poly1305); }
uint64_t vp_qc_nonce_size(const QC *c, uint64_t a) { return c->aead_nonce_min_size(a == 0 ? QC::aead::aes_128_gcm : a == 1 ? QC::aead::aes_256_gcm : QC::aead::chacha20_poly1305); }
}
