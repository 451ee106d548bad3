ID = 's25-hmsg-type'
PROP = 'C02'
EDITS = [('src/xmss-alt/hash.c', "    return core_hash(hash_func, out, 2, key, keylen, in, inlen, n);", "    return core_hash(hash_func, out, inlen == 2 * n ? 1 : 2, key, keylen, in, inlen, n);")]
NEEDS = 'a message of exactly 64 bytes'
BREAKS = 'a message hash is computed in the domain of the tree hash'
DEMO = r'''
#include <cstdio>
#include <cstring>
#include <vector>
#include <xmss-alt/algsxmss.h>
#include <xmss-alt/hash.h>
#include <xmss-alt/fips202.h>
int main()
{
    int bad = 0;
    for (size_t len = 0; len < 200; len++) {
        std::vector<unsigned char> m(len, 5), key(96, 7), in(32, 0);
        in[31] = 2;
        in.insert(in.end(), key.begin(), key.end());
        in.insert(in.end(), m.begin(), m.end());
        unsigned char a[32], b[32];
        h_msg(eHashFunction::SHAKE_256, a, m.data(), len, key.data(), 96, 32);
        shake256(b, 32, in.data(), in.size());
        if (memcmp(a, b, 32)) {
            printf("H_msg of %zu bytes is not SHAKE256(toByte(2,32) || KEY || M)\n", len);
            bad = 1;
        }
    }
    return bad;
}
'''
