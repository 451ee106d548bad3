// Entry points over the JavaScript XMSS binding.
#include "jswrapper/jsqrlwrapper.cpp"
#include <cstring>
template class std::basic_string<char>;
typedef std::vector<uint8_t> V;
static inline V mk(const uint8_t *p, size_t n) { return V(p, p + n); }
static inline size_t put(const V &v, uint8_t *out) { std::memcpy(out, v.data(), v.size()); return v.size(); }
static inline std::string S(const char *p, size_t n) { return std::string(p, n); }
static inline size_t puts_(const std::string &s, char *out) { std::memcpy(out, s.data(), s.size()); return s.size(); }
using namespace Xmss;
extern "C" {
bool vsa_js_verify(const uint8_t *m, size_t n, const uint8_t *s, size_t sn, const uint8_t *p, size_t pn) { return XmssWrapper::verify(mk(m, n), mk(s, sn), mk(p, pn)); }
bool vsa_js_bverify(const uint8_t *m, size_t n, const uint8_t *s, size_t sn, const uint8_t *p, size_t pn, uint32_t w) { return XmssBasicWrapper::verify(mk(m, n), mk(s, sn), mk(p, pn), w); }
bool vsa_js_valid(const char *a, size_t n) { return _validateAddress(S(a, n)); }
bool vsa_js_validraw(const uint8_t *a, size_t n) { return _validateAddressRaw(mk(a, n)); }
size_t vsa_js_address(const char *p, size_t n, char *o) { return puts_(_getAddress(S(p, n)), o); }
int vsa_js_hf(const char *p, size_t n) { return (int) _getHashFunction(S(p, n)); }
int vsa_js_st(const char *p, size_t n) { return (int) _getSignatureType(S(p, n)); }
int vsa_js_height(const char *p, size_t n) { return _getHeight(S(p, n)); }
void *vsa_js_new(const uint8_t *s, size_t n, uint8_t h, int hf) { return new XmssWrapper(XmssWrapper::fromParameters(mk(s, n), h, (eHashFunction) hf)); }
void *vsa_js_hex(const char *s, size_t n) { return new XmssWrapper(XmssWrapper::fromHexSeed(S(s, n))); }
void *vsa_js_mnem(const char *s, size_t n) { return new XmssWrapper(XmssWrapper::fromMnemonic(S(s, n))); }
size_t vsa_js_hexseed(void *x, char *o) { return puts_(((XmssWrapper *) x)->getHexSeed(), o); }
size_t vsa_js_mnemonic(void *x, char *o) { return puts_(((XmssWrapper *) x)->getMnemonic(), o); }
size_t vsa_js_pk(void *x, char *o) { return puts_(((XmssWrapper *) x)->getPK(), o); }
size_t vsa_js_addr(void *x, char *o) { return puts_(((XmssWrapper *) x)->getAddress(), o); }
int vsa_js_xheight(void *x) { return ((XmssWrapper *) x)->getHeight(); }
unsigned vsa_js_index(void *x) { return ((XmssWrapper *) x)->getIndex(); }
unsigned vsa_js_setindex(void *x, unsigned i) { return ((XmssWrapper *) x)->setIndex(i); }
size_t vsa_js_sign(void *x, const uint8_t *m, size_t n, uint8_t *o) { return put(((XmssWrapper *) x)->sign(mk(m, n)), o); }
}
