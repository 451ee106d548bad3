ID = 's01-checksum-last-digit'
PROP = 'C04'
EDITS = [('src/xmss-alt/wots.c', """    for (i = 0; i < params->len_1; i++) {
        csum += params->w - 1 - basew[i];""", """    for (i = 0; i + 1 < params->len_1; i++) {
        csum += params->w - 1 - basew[i];"""),
         ('src/xmss-alt/wots.c', """    for (i = 0; i < XMSS_WOTS_LEN1; i++) {
        csum += XMSS_WOTS_W - 1 - basew[i];""", """    for (i = 0; i + 1 < XMSS_WOTS_LEN1; i++) {
        csum += XMSS_WOTS_W - 1 - basew[i];""")]
NEEDS = 'two digests that differ only in their last base-w digit: signing and recovery leave the same digit out of the checksum, so every honest signature still verifies'
BREAKS = 'the last message digit is not covered by the checksum, so a signature can be advanced on that chain to a forgery'
DEMO = r'''
#include <cstdio>
#include <cstring>
#include <vector>
#include "xmss_common.h"
#include "wots.h"
// a signature of a digest ending in 3 must not be convertible to one of the digest ending in 4
// by advancing the last message chain once
int main()
{
    wots_params p;
    wots_set_params(&p, 32, 16);
    unsigned char seed[32], pub[32], d[32], d2[32];
    memset(seed, 7, 32);
    memset(pub, 9, 32);
    for (int i = 0; i < 32; i++) d[i] = d2[i] = i * 11;
    d[31] = 0x53;
    d2[31] = 0x54;
    std::vector<unsigned char> s1(p.keysize), s2(p.keysize);
    uint32_t a1[8] = {0}, a2[8] = {0};
    wots_sign(eHashFunction::SHAKE_128, s1.data(), d, seed, &p, pub, a1);
    wots_sign(eHashFunction::SHAKE_128, s2.data(), d2, seed, &p, pub, a2);
    bool checksum_same = memcmp(s1.data() + 64 * 32, s2.data() + 64 * 32, 3 * 32) == 0;
    printf("checksum chains %s\n", checksum_same ? "equal: forgeable" : "differ");
    return checksum_same;
}
'''
