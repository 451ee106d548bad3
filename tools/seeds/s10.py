ID = 's10-treehash-last-leaf'
PROP = 'C20'
EDITS = [('src/xmss-alt/algsxmss_fast.c', "            if (startidx < 1U << h) {", "            if (startidx + 1 < 1U << h) {")]
NEEDS = 'signing with the second to last leaf of the tree'
BREAKS = 'the last leaf is never computed by the traversal, so the authentication path of leaf 2^h-2 is stale'
DEMO = r'''
#include <cstdio>
#include <qrl/xmssFast.h>
int main()
{
    XmssFast k(TSEED(48, 7), 4);
    std::vector<uint8_t> m{1, 2, 3};
    int bad = 0;
    for (int i = 0; i < 16; i++) {
        auto sig = k.sign(m);
        if (!XmssBase::verify(m, sig, k.getPK())) {
            printf("signature %d does not verify\n", i);
            bad = 1;
        }
    }
    return bad;
}
'''
