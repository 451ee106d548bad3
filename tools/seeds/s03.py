ID = 's03-index-carry'
PROP = 'C08'
EDITS = [('src/xmss-alt/algsxmss_fast.c', """    sk[1] = ((idx + 1) >> 16) & 255;
    sk[2] = ((idx + 1) >> 8) & 255;""", """    sk[1] = (idx >> 16) & 255;
    sk[2] = ((idx + 1) >> 8) & 255;""")]
NEEDS = 'signing with index 65535 (tree height 18 or more): only then the carry reaches the third byte'
BREAKS = 'after index 65535 the stored index goes back to 0, so every one-time key is used again'
DEMO = r'''
#include <cstdio>
#include <cstring>
#include <vector>
#include <xmss-alt/algsxmss_fast.h>
int main()
{
    const unsigned h = 18, k = 2, n = 32;
    xmss_params p;
    xmss_set_params(&p, n, h, 16, k);
    std::vector<unsigned char> stack((h + 1) * n), levels(h + 1), auth(h * n), keep((h >> 1) * n), nodes((h - k) * n), retain(((1 << k) - k - 1) * n);
    std::vector<treehash_inst> th(h - k);
    for (unsigned i = 0; i < h - k; i++) {
        th[i].node = &nodes[n * i];
        th[i].h = i;
        th[i].completed = 1;
        th[i].stackusage = 0;
        th[i].next_idx = 0;
    }
    bds_state s;
    xmss_set_bds_state(&s, stack.data(), 0, levels.data(), auth.data(), keep.data(), th.data(), retain.data(), 0);
    unsigned char sk[132];
    memset(sk, 5, sizeof sk);
    int bad = 0;
    std::vector<unsigned char> sig(4 + 32 + 67 * 32 + h * 32);
    unsigned char msg[4] = {1};
    for (uint32_t idx : {0u, 1u, 255u, 256u, 65535u, 65536u, 131071u}) {
        sk[0] = idx >> 24;
        sk[1] = idx >> 16;
        sk[2] = idx >> 8;
        sk[3] = idx;
        xmssfast_Signmsg(eHashFunction::SHAKE_128, &p, sk, &s, sig.data(), msg, 4);
        uint32_t now = sk[0] << 24 | sk[1] << 16 | sk[2] << 8 | sk[3];
        if (now != idx + 1) {
            printf("index %u followed by %u\n", idx, now);
            bad = 1;
        }
    }
    return bad;
}
'''
