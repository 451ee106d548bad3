ID = 's02-root-compare-short'
PROP = 'C06'
EDITS = [('src/xmss-alt/xmss_common.c', """    for (i = 0; i < n; i++)
        if (root[i] != pk[i])""", """    for (i = 0; i < n - 1; i++)
        if (root[i] != pk[i])""")]
NEEDS = 'a public key whose root differs from the recomputed one in the last byte only, with the message hashed under that public key'
BREAKS = 'the last byte of the root is not compared'
DEMO = r'''
#include <cstdio>
#include <cstring>
#include <vector>
#include <xmss-alt/algsxmss.h>
int main()
{
    xmss_params p;
    xmss_set_params(&p, 32, 4, 16, 2);
    unsigned char pk[64], sk[132], seed[48];
    memset(seed, 3, 48);
    xmss_Genkeypair(eHashFunction::SHAKE_128, &p, pk, sk, seed);
    unsigned char msg[20] = {1, 2, 3};
    std::vector<unsigned char> sig(4 + 32 + 67 * 32 + 4 * 32);
    int bad = 0;
    for (int pos = 0; pos < 32; pos++) {
        unsigned char pk2[64], sk2[132];
        memcpy(pk2, pk, 64);
        memcpy(sk2, sk, 132);
        pk2[pos] ^= 1;
        sk2[100 + pos] ^= 1;
        xmss_Signmsg(eHashFunction::SHAKE_128, &p, sk2, sig.data(), msg, 20);
        if (xmss_Verifysig(eHashFunction::SHAKE_128, &p.wots_par, msg, 20, sig.data(), pk2, 4) == 0) {
            printf("accepted although root byte %d differs\n", pos);
            bad = 1;
        }
    }
    xmss_Signmsg(eHashFunction::SHAKE_128, &p, sk, sig.data(), msg, 20);
    if (xmss_Verifysig(eHashFunction::SHAKE_128, &p.wots_par, msg, 20, sig.data(), pk, 4) != 0) {
        printf("honest signature refused\n");
        bad = 1;
    }
    return bad;
}
'''
