ID = 's05-set-index-last'
PROP = 'C09'
EDITS = [('src/xmss-alt/algsxmss_fast.c', "    if (new_idx>=num_elems)\n", "    if (new_idx>num_elems)\n"),
         ]
NEEDS = 'moving the index to exactly 2^h'
BREAKS = 'a target index equal to the number of leaves is accepted and the traversal runs past the last leaf'
DEMO = r'''
#include <cstdio>
#include <cstring>
#include <stdexcept>
#include <vector>
#include <xmss-alt/algsxmss_fast.h>
int main()
{
    const unsigned h = 4, k = 2, n = 32;
    xmss_params p;
    xmss_set_params(&p, n, h, 16, k);
    std::vector<unsigned char> stack((h + 1) * n), levels(h + 1), auth(h * n), keep((h >> 1) * n), nodes((h - k) * n), retain(((1 << k) - k - 1) * n);
    std::vector<treehash_inst> th(h - k);
    for (unsigned i = 0; i < h - k; i++) th[i].node = &nodes[n * i];
    bds_state s;
    xmss_set_bds_state(&s, stack.data(), 0, levels.data(), auth.data(), keep.data(), th.data(), retain.data(), 0);
    unsigned char pk[64], sk[132], seed[48] = {1};
    xmssfast_Genkeypair(eHashFunction::SHAKE_128, &p, pk, sk, &s, seed);
    xmssfast_update(eHashFunction::SHAKE_128, &p, sk, &s, 15);
    unsigned char before[132];
    memcpy(before, sk, 132);
    bool refused = false;
    try {
        xmssfast_update(eHashFunction::SHAKE_128, &p, sk, &s, 16);
    }
    catch (std::invalid_argument &) {
        refused = true;
    }
    printf("index 16 of 16 %s\n", refused ? "refused" : "accepted");
    return !(refused && memcmp(before, sk, 132) == 0);
}
'''
