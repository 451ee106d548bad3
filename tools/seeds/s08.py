ID = 's08-randomiser-index'
PROP = 'C07'
EDITS = [('src/xmss-alt/algsxmss_fast.c', "    to_byte(idx_bytes_32, idx, 32);\n", "    memset(idx_bytes_32, 0, sizeof(idx_bytes_32));\n    to_byte(idx_bytes_32 + 30, idx, 2);\n")]
NEEDS = 'signing index 65536 or later in a tree of height 18 or more'
BREAKS = 'the message randomiser repeats every 65536 signatures; the index it is derived from is cut to 16 bits'
DEMO = r'''
#include <cstdio>
#include <cstring>
#include <vector>
#include <xmss-alt/algsxmss_fast.h>
#include <xmss-alt/hash.h>
#include <xmss-alt/xmss_common.h>
int main()
{
    const unsigned h = 18, k = 2, n = 32;
    xmss_params p;
    xmss_set_params(&p, n, h, 16, k);
    int bad = 0;
    for (uint32_t idx : {0u, 1u, 255u, 256u, 65535u, 65536u, 65544u, 200000u}) {
        std::vector<unsigned char> stack((h + 1) * n), levels(h + 1), auth(h * n), keep((h >> 1) * n), nodes((h - k) * n), retain(((1 << k) - k - 1) * n);
        std::vector<treehash_inst> th(h - k);
        for (unsigned i = 0; i < h - k; i++) {
            th[i].node = &nodes[n * i];
            th[i].completed = 1;
        }
        bds_state s;
        xmss_set_bds_state(&s, stack.data(), 0, levels.data(), auth.data(), keep.data(), th.data(), retain.data(), 0);
        unsigned char sk[132], msg[3] = {1, 2, 3}, want[32], ib[32];
        for (int i = 0; i < 132; i++) sk[i] = i;
        to_byte(sk, idx, 4);
        to_byte(ib, idx, 32);
        prf(eHashFunction::SHAKE_128, want, ib, sk + 36, n);
        std::vector<unsigned char> sig(4 + 32 + p.wots_par.keysize + h * n);
        xmssfast_Signmsg(eHashFunction::SHAKE_128, &p, sk, &s, sig.data(), msg, 3);
        if (memcmp(want, &sig[4], 32)) {
            printf("randomiser at index %u is not PRF(SK_PRF, index)\n", idx);
            bad = 1;
        }
    }
    return bad;
}
'''
