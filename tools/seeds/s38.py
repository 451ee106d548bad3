ID = 's38-shake256-offset-16bit'
PROP = 'C01'
EDITS = [('src/xmss-alt/fips202.c', "    output += (outlen / SHAKE256_RATE) * SHAKE256_RATE;", "    output += static_cast<uint16_t>((outlen / SHAKE256_RATE) * SHAKE256_RATE);")]
NEEDS = 'more than 65536 bytes of SHAKE256 output'
BREAKS = 'the last part of the output is written over an earlier part'
DEMO = r'''
#include <cstdio>
#include <vector>
#include <cstdint>
#include <algorithm>
#include <xmss-alt/fips202.h>
int main()
{
    int bad = 0;
    unsigned char in[3] = {1, 2, 3};
    std::vector<unsigned char> ref(136 * 600, 0);
    shake256(ref.data(), ref.size(), in, 3);
    for (size_t n : {100, 5000, 60000, 66000, 70001}) {
        std::vector<unsigned char> x(n, 0);
        shake256(x.data(), n, in, 3);
        if (!std::equal(x.begin(), x.end(), ref.begin())) { printf("%zu bytes of output are no prefix of a longer one\n", n); bad = 1; }
    }
    return bad;
}
'''
