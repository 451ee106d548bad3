// Entry points for the analyser over the Dilithium and Kyber wrappers.
#include <cstring>
#include "dilithium/dilithium.h"
#include <string>
typedef std::vector<uint8_t> V;
template class std::basic_string<char>;
static inline V mk(const uint8_t *p, size_t n) { return V(p, p + n); }
static inline size_t put(const V &v, uint8_t *out) { std::memcpy(out, v.data(), v.size()); return v.size(); }
extern "C" {
size_t vsa_dil_pkbytes() { return CRYPTO_PUBLICKEYBYTES; }
size_t vsa_dil_skbytes() { return CRYPTO_SECRETKEYBYTES; }
size_t vsa_dil_bytes() { return CRYPTO_BYTES; }
Dilithium *vsa_dil_gen() { return new Dilithium(); }
Dilithium *vsa_dil_new(const uint8_t *p, size_t pn, const uint8_t *s, size_t sn) { return new Dilithium(mk(p, pn), mk(s, sn)); }
size_t vsa_dil_pk(Dilithium *d, uint8_t *o) { return put(d->getPK(), o); }
size_t vsa_dil_sk(Dilithium *d, uint8_t *o) { return put(d->getSK(), o); }
size_t vsa_dil_sign(Dilithium *d, const uint8_t *m, size_t n, uint8_t *o) { return put(d->sign(mk(m, n)), o); }
unsigned vsa_dil_open(const uint8_t *s, size_t sn, const uint8_t *p, size_t pn, size_t pre, uint8_t *o, uint64_t *len) {
    V out(pre, 0x5a);
    bool r = Dilithium::sign_open(out, mk(s, sn), mk(p, pn));
    *len = put(out, o);
    return r;
}
size_t vsa_dil_msg(const uint8_t *s, size_t n, uint8_t *o) { V v = mk(s, n); return put(Dilithium::extract_message(v), o); }
size_t vsa_dil_sig(const uint8_t *s, size_t n, uint8_t *o) { V v = mk(s, n); return put(Dilithium::extract_signature(v), o); }
}
