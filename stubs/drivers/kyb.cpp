// Entry points for the analyser over the Kyber wrapper.
#include <cstring>
#include "kyber/kyber.h"
typedef std::vector<uint8_t> V;
static inline V mk(const uint8_t *p, size_t n) { return V(p, p + n); }
static inline size_t put(const V &v, uint8_t *out) { std::memcpy(out, v.data(), v.size()); return v.size(); }
extern "C" {
size_t vsa_kyb_pkbytes() { return KYBER_PUBLICKEYBYTES; }
size_t vsa_kyb_skbytes() { return KYBER_SECRETKEYBYTES; }
size_t vsa_kyb_ctbytes() { return KYBER_CIPHERTEXTBYTES; }
size_t vsa_kyb_symbytes() { return KYBER_SYMBYTES; }
Kyber *vsa_kyb_gen() { return new Kyber(); }
Kyber *vsa_kyb_new(const uint8_t *p, size_t pn, const uint8_t *s, size_t sn) { return new Kyber(mk(p, pn), mk(s, sn)); }
size_t vsa_kyb_pk(Kyber *k, uint8_t *o) { return put(k->getPK(), o); }
size_t vsa_kyb_sk(Kyber *k, uint8_t *o) { return put(k->getSK(), o); }
size_t vsa_kyb_key(Kyber *k, uint8_t *o) { return put(k->getMyKey(), o); }
size_t vsa_kyb_ct(Kyber *k, uint8_t *o) { return put(k->getCypherText(), o); }
unsigned vsa_kyb_enc(Kyber *k, const uint8_t *p, size_t n) { return k->kem_encode(mk(p, n)); }
unsigned vsa_kyb_dec(Kyber *k, const uint8_t *p, size_t n) { return k->kem_decode(mk(p, n)); }
}
