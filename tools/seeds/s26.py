ID = 's26-exact-block'
PROP = 'C01'
EDITS = [('src/xmss-alt/fips202.c', "    while (mlen >= r) {", "    while (mlen > r) {")]
NEEDS = 'an input whose length is a multiple of the rate'
BREAKS = 'such inputs are padded wrongly (and one byte beyond the block is written)'
DEMO = r'''
#include <cstdio>
#include <cstring>
#include <vector>
#include <xmss-alt/fips202.h>
int main()
{
    // SHAKE128 of n bytes 0x61, first 8 bytes
    struct { size_t n; unsigned char out[8]; } kat[] = {
        @KAT@
    };
    int bad = 0;
    for (auto &k : kat) {
        std::vector<unsigned char> m(k.n, 0x61);
        unsigned char o[8];
        shake128(o, 8, m.data(), m.size());
        if (memcmp(o, k.out, 8)) {
            printf("SHAKE128 of %zu bytes differs\n", k.n);
            bad = 1;
        }
    }
    return bad;
}
'''
import hashlib as _h
DEMO = DEMO.replace('@KAT@', ' '.join('{%d, {%s}},' % (n, ', '.join(str(x) for x in _h.shake_128(b'a' * n).digest(8))) for n in (0, 1, 135, 136, 167, 168, 169, 336, 337)))
