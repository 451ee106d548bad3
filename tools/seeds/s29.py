ID = 's29-ltree-length-byte'
PROP = 'C05'
EDITS = [('src/xmss-alt/xmss_common.c', "    unsigned int l = params->len;\n    unsigned int n = params->n;\n    uint32_t i = 0;", "    auto l = static_cast<unsigned char>(params->len);\n    unsigned int n = params->n;\n    uint32_t i = 0;")]
NEEDS = 'the Winternitz parameter 2 (265 chains)'
BREAKS = 'only the first 9 chain ends enter the leaf: 256 chains are unchecked'
DEMO = r'''
#include <cstdio>
#include <cstring>
#include <vector>
#include <xmss-alt/xmss_common.h>
int main()
{
    int bad = 0;
    for (uint32_t w : {2u, 4u, 16u, 256u}) {
        wots_params p;
        wots_set_params(&p, 32, w);
        std::vector<unsigned char> pk(p.keysize), q;
        for (size_t i = 0; i < pk.size(); i++) pk[i] = i * 7 + (i >> 8);
        unsigned char seed[32] = {5};
        for (uint32_t chain : {0u, 8u, 9u, p.len - 1}) {
            if (chain >= p.len) continue;
            unsigned char a[32], b[32];
            uint32_t a1[8] = {0}, a2[8] = {0};
            q = pk;
            l_tree(eHashFunction::SHAKE_128, &p, a, q.data(), seed, a1);
            q = pk;
            q[32 * chain] ^= 1;
            l_tree(eHashFunction::SHAKE_128, &p, b, q.data(), seed, a2);
            if (!memcmp(a, b, 32)) {
                printf("w %u: chain end %u does not enter the leaf\n", w, chain);
                bad = 1;
            }
        }
    }
    return bad;
}
'''
