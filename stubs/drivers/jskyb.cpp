// Entry points over the JavaScript Kyber binding.
#include "jswrapper/jskybwrapper.cpp"
#include <cstring>
template class std::basic_string<char>;
static inline std::string S(const char *p, size_t n) { return std::string(p, n); }
static inline size_t puts_(const std::string &s, char *out) { std::memcpy(out, s.data(), s.size()); return s.size(); }
extern "C" {
void *vsa_js_kyb_keys(const char *p, size_t pn, const char *s, size_t sn) { return new KyberWrapper(KyberWrapper::fromKeys(S(p, pn), S(s, sn))); }
unsigned vsa_js_enc(void *k, const char *p, size_t n) { return ((KyberWrapper *) k)->kem_encode(S(p, n)); }
unsigned vsa_js_dec(void *k, const char *p, size_t n) { return ((KyberWrapper *) k)->kem_decode(S(p, n)); }
size_t vsa_js_kyb_key(void *k, char *o) { return puts_(((KyberWrapper *) k)->getMyKey(), o); }
size_t vsa_js_kyb_ct(void *k, char *o) { return puts_(((KyberWrapper *) k)->getCypherText(), o); }
}
