ID = 's07-leaf-index-16bit'
PROP = 'C05'
EDITS = [('src/xmss-alt/xmss_common.c', """                  const unsigned char *leaf,
                  unsigned long leafidx,
                  const unsigned char *authpath,
                  const uint32_t n,""", """                  const unsigned char *leaf,
                  unsigned short leafidx,
                  const unsigned char *authpath,
                  const uint32_t n,""")]
NEEDS = 'a tree of height 18 or more and a leaf index of 65536 or more'
BREAKS = 'the root is recomputed with the wrong node addresses and sides above level 16'
DEMO = r'''
#include <cstdio>
#include <cstring>
#include <vector>
#include <xmss-alt/algsxmss.h>
#include <xmss-alt/hash.h>
#include <xmss-alt/hash_address.h>
#include <xmss-alt/xmss_common.h>
// A tree of which only one leaf is known: the other nodes of its path are arbitrary.
static bool tree(unsigned h, uint32_t idx)
{
    const unsigned n = 32;
    auto f = eHashFunction::SHAKE_128;
    xmss_params p;
    xmss_set_params(&p, n, h, 16, 2);
    std::vector<unsigned char> auth(h * n);
    for (size_t i = 0; i < auth.size(); i++) auth[i] = (unsigned char) (i * 7 + h);
    unsigned char seed[32], skseed[32], pub[32], leaf[32], pk[64], node[64];
    memset(skseed, 5, 32);
    memset(pub, 6, 32);
    std::vector<unsigned char> wpk(p.wots_par.keysize);
    uint32_t ots[8] = {0}, lt[8] = {0, 0, 0, 1}, nd[8] = {0, 0, 0, 2};
    ots[4] = idx;
    lt[4] = idx;
    unsigned char b[32];
    addr_to_byte(b, ots);
    prf(f, seed, b, skseed, n);
    wots_pkgen(f, wpk.data(), seed, &p.wots_par, pub, ots);
    l_tree(f, &p.wots_par, leaf, wpk.data(), pub, lt);
    for (unsigned l = 0; l < h; l++) {
        bool right = (idx >> l) & 1;
        memcpy(node + (right ? n : 0), leaf, n);
        memcpy(node + (right ? 0 : n), &auth[l * n], n);
        nd[5] = l;
        nd[6] = idx >> (l + 1);
        hash_h(f, leaf, node, pub, nd, n);
    }
    memcpy(pk, leaf, n);
    memcpy(pk + n, pub, n);
    unsigned char msg[10] = {9}, R[32], key[96], d[32];
    memset(R, 4, 32);
    memcpy(key, R, 32);
    memcpy(key + 32, pk, 32);
    to_byte(key + 64, idx, 32);
    h_msg(f, d, msg, 10, key, 96, n);
    std::vector<unsigned char> sig(4 + 32 + p.wots_par.keysize + h * n);
    to_byte(sig.data(), idx, 4);
    memcpy(&sig[4], R, 32);
    uint32_t o2[8] = {0};
    o2[4] = idx;
    wots_sign(f, &sig[36], d, seed, &p.wots_par, pub, o2);
    memcpy(&sig[36 + p.wots_par.keysize], auth.data(), auth.size());
    return xmss_Verifysig(f, &p.wots_par, msg, 10, sig.data(), pk, h) == 0;
}
int main()
{
    int bad = 0;
    for (uint32_t i : {0u, 5u, 1000u, 65535u, 65536u, 70001u, 131072u, 262143u})
        if (!tree(18, i)) {
            printf("honest signature at leaf %u refused\n", i);
            bad = 1;
        }
    return bad;
}
'''
