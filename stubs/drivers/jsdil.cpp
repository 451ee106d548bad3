// Entry points over the JavaScript Dilithium binding.
#include "jswrapper/jsdilwrapper.cpp"
#include <cstring>
template class std::basic_string<char>;
static inline std::string S(const char *p, size_t n) { return std::string(p, n); }
static inline size_t puts_(const std::string &s, char *out) { std::memcpy(out, s.data(), s.size()); return s.size(); }
extern "C" {
size_t vsa_js_open(const char *m, size_t mn, const char *s, size_t sn, const char *p, size_t pn, char *o) { return puts_(DilithiumWrapper::sign_open(S(m, mn), S(s, sn), S(p, pn)), o); }
size_t vsa_js_extract(const char *s, size_t n, char *o) { return puts_(DilithiumWrapper::extract_message(S(s, n)), o); }
void *vsa_js_dil_keys(const char *p, size_t pn, const char *s, size_t sn) { return new DilithiumWrapper(DilithiumWrapper::fromKeys(S(p, pn), S(s, sn))); }
size_t vsa_js_dil_pk(void *d, char *o) { return puts_(((DilithiumWrapper *) d)->getPK(), o); }
size_t vsa_js_dil_sk(void *d, char *o) { return puts_(((DilithiumWrapper *) d)->getSK(), o); }
}
