// Entry points for the analyser over the tree pool.
#include <cstring>
#include <cstdint>
#include <vector>
#include <memory>
#include "qrl/xmssPool.h"
typedef std::vector<uint8_t> V;
extern "C" {
XmssPool *vsa_pool_new(const uint8_t *s, size_t n, uint8_t h, size_t start, size_t size) { return new XmssPool(V(s, s + n), h, start, size); }
XmssFast *vsa_pool_next(XmssPool *p) { auto *k = new std::shared_ptr<XmssFast>(p->getNextTree()); return k->get(); }
bool vsa_pool_available(XmssPool *p) { return p->isAvailable(); }
size_t vsa_pool_index(XmssPool *p) { return p->getCurrentIndex(); }
void vsa_pool_delete(XmssPool *p) { delete p; }
}
