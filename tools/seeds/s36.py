ID = 's36-shake128-long-output'
PROP = 'C29'
EDITS = [('src/qrl/hashing.cpp', "    shake128(hashed_output.data(), hash_size, input.data(), input.size());", "    shake128(hashed_output.data(), hash_size > 168 * 4 ? 168 * 4 : hash_size, input.data(), input.size());")]
NEEDS = 'more than 672 bytes of SHAKE128 output'
BREAKS = 'the bytes past the fourth block are zero'
DEMO = r'''
#include <cstdio>
#include <qrl/hashing.h>
int main()
{
    int bad = 0;
    for (size_t n : {32, 168, 672, 700, 5000}) {
        auto x = shake128(n, {1, 2, 3});
        bool zero = true;
        for (size_t i = n - 8; i < n; i++) zero = zero && x[i] == 0;
        if (zero) { printf("%zu bytes: the last eight are zero\n", n); bad = 1; }
    }
    return bad;
}
'''
