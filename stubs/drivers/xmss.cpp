// Entry points for the analyser: each wraps one use of the public C++ API on plain buffers.
// Never linked or run; compiled to IR together with /repo's sources.
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include "qrl/xmssBase.h"
#include "qrl/xmssBasic.h"
#include "qrl/xmssFast.h"
template class std::basic_string<char>;
typedef std::vector<uint8_t> V;
static inline V mk(const uint8_t *p, size_t n) { return V(p, p + n); }
static inline size_t put(const V &v, uint8_t *out) { std::memcpy(out, v.data(), v.size()); return v.size(); }
extern "C" {
XmssBase *vsa_fast_new(const uint8_t *s, size_t n, uint8_t h, int hf, int af) { return new XmssFast(mk(s, n), h, (eHashFunction)hf, (eAddrFormatType)af); }
XmssBase *vsa_fast_ext(const uint8_t *s, size_t n) { return new XmssFast(mk(s, n)); }
XmssBase *vsa_basic_new(const uint8_t *s, size_t n, uint8_t h, int hf, int af, uint32_t w) { return new XmssBasic(mk(s, n), h, (eHashFunction)hf, (eAddrFormatType)af, w); }
size_t vsa_sign(XmssBase *b, const uint8_t *m, size_t n, uint8_t *out) { return put(b->sign(mk(m, n)), out); }
unsigned vsa_set_index(XmssBase *b, unsigned i) { return b->setIndex(i); }
unsigned vsa_index(XmssBase *b) { return b->getIndex(); }
unsigned vsa_nsig(XmssBase *b) { return b->getNumberSignatures(); }
unsigned vsa_remaining(XmssBase *b) { return b->getRemainingSignatures(); }
unsigned vsa_height(XmssBase *b) { return b->getHeight(); }
unsigned vsa_sigsize(XmssBase *b, uint32_t w) { return b->getSignatureSize(w); }
unsigned vsa_sksize(XmssBase *b) { return b->getSecretKeySize(); }
unsigned vsa_pksize(XmssBase *b) { return b->getPublicKeySize(); }
size_t vsa_sk(XmssBase *b, uint8_t *o) { return put(b->getSK(), o); }
size_t vsa_pk(XmssBase *b, uint8_t *o) { return put(b->getPK(), o); }
size_t vsa_seed(XmssBase *b, uint8_t *o) { return put(b->getSeed(), o); }
size_t vsa_extseed(XmssBase *b, uint8_t *o) { return put(b->getExtendedSeed(), o); }
size_t vsa_root(XmssBase *b, uint8_t *o) { return put(b->getRoot(), o); }
size_t vsa_pkseed(XmssBase *b, uint8_t *o) { return put(b->getPKSeed(), o); }
size_t vsa_skseed(XmssBase *b, uint8_t *o) { return put(b->getSKSeed(), o); }
size_t vsa_skprf(XmssBase *b, uint8_t *o) { return put(b->getSKPRF(), o); }
size_t vsa_address(XmssBase *b, uint8_t *o) { return put(b->getAddress(), o); }
size_t vsa_descbytes(XmssBase *b, uint8_t *o) { return put(b->getDescriptorBytes(), o); }
bool vsa_verify(const uint8_t *m, size_t n, const uint8_t *s, size_t sn, const uint8_t *p, size_t pn, uint32_t w) { return XmssBase::verify(mk(m, n), mk(s, sn), mk(p, pn), w); }
unsigned vsa_height_from_sigsize(size_t n, uint32_t w) { return XmssBase::getHeightFromSigSize(n, w); }
}

#include "qrl/qrlDescriptor.h"
#include "qrl/qrlHelper.h"
static inline void putd(QRLDescriptor d, uint32_t *f, uint8_t *b) {
    f[0] = d.getHashFunction();
    f[1] = d.getSignatureType();
    f[2] = d.getHeight();
    f[3] = d.getAddrFormatType();
    put(d.getBytes(), b);
}
extern "C" {
void vsa_desc_from(const uint8_t *p, size_t n, uint32_t *f, uint8_t *b) { putd(QRLDescriptor::fromBytes(mk(p, n)), f, b); }
void vsa_desc_seed(const uint8_t *p, size_t n, uint32_t *f, uint8_t *b) { putd(QRLDescriptor::fromExtendedSeed(mk(p, n)), f, b); }
void vsa_desc_pk(const uint8_t *p, size_t n, uint32_t *f, uint8_t *b) { putd(QRLDescriptor::fromExtendedPK(mk(p, n)), f, b); }
void vsa_desc_new(int hf, int st, uint8_t h, int af, uint32_t *f, uint8_t *b) {
    putd(QRLDescriptor((eHashFunction)hf, (eSignatureType)st, h, (eAddrFormatType)af), f, b);
}
size_t vsa_addr_of(const uint8_t *p, size_t n, uint8_t *o) { return put(QRLHelper::getAddress(mk(p, n)), o); }
bool vsa_addr_valid(const uint8_t *p, size_t n) { return QRLHelper::addressIsValid(mk(p, n)); }
}
