ID = 's28-hash-count-16bit'
PROP = 'C29'
EDITS = [('src/qrl/hashing.cpp', "    for (size_t i = 1; i < count; i++) {", "    const auto last = static_cast<uint16_t>(count - 1);\n    for (size_t i = 1; i <= last; i++) {")]
NEEDS = 'a count above 65536'
BREAKS = 'the hash is applied count mod 65536 times'
DEMO = r'''
#include <cstdio>
#include <qrl/hashing.h>
int main()
{
    std::vector<unsigned char> a{1, 2, 3};
    auto x = sha2_256_n(a, 65000);
    x = sha2_256_n(x, 1000);
    bool same = x == sha2_256_n(a, 66000);
    printf("65000 + 1000 rounds %s 66000 rounds\n", same ? "equal" : "differ from");
    return !same;
}
'''
