ID = 's27-chain-start-zero'
PROP = 'C04'
EDITS = [('src/xmss-alt/wots.c', "    for (i = start; i < (start + steps) && i < params->w; i++) {", "    for (i = start; i < (start + steps) && i < params->w - 1 - (start > 13); i++) {")]
NEEDS = 'a digest with a base-w digit of 14'
BREAKS = 'the last step of such a chain is skipped when the public key is recovered'
DEMO = r'''
#include <cstdio>
#include <cstring>
#include <vector>
#include <xmss-alt/wots.h>
int main()
{
    wots_params p;
    wots_set_params(&p, 32, 16);
    unsigned char sk[32] = {1}, pub[32] = {2};
    std::vector<unsigned char> pk(p.keysize), sig(p.keysize), rec(p.keysize);
    int bad = 0;
    for (int b = 0; b < 256; b += 5) {
        uint32_t a1[8] = {0}, a2[8] = {0}, a3[8] = {0};
        unsigned char msg[32];
        memset(msg, b, 32);
        wots_pkgen(eHashFunction::SHAKE_128, pk.data(), sk, &p, pub, a1);
        wots_sign(eHashFunction::SHAKE_128, sig.data(), msg, sk, &p, pub, a2);
        wots_pkFromSig(eHashFunction::SHAKE_128, rec.data(), sig.data(), msg, &p, pub, a3);
        if (rec != pk) {
            printf("digest %02x...: public key not recovered\n", b);
            bad = 1;
        }
    }
    return bad;
}
'''
