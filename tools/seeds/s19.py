ID = 's19-chain-seed-counter'
PROP = 'C27'
EDITS = [('src/qrl/misc.cpp', "        for (int j = 0; j < sizeof(uint32_t); j++) {\n            tmp_seed[p + j] = static_cast<unsigned char>((i >> (8 * j)) & 0xFF);", "        for (int j = 0; j < sizeof(uint16_t); j++) {\n            tmp_seed[p + j] = static_cast<unsigned char>((i >> (8 * j)) & 0xFF);")]
NEEDS = 'a count above 65536'
BREAKS = 'the seeds repeat after 65536'
DEMO = r'''
#include <cstdio>
#include <set>
#include <qrl/misc.h>
int main()
{
    auto r = getHashChainSeed(std::vector<unsigned char>(48, 1), 5, 65540);
    std::set<std::vector<unsigned char>> s(r.begin(), r.end());
    printf("%zu seeds, %zu different\n", r.size(), s.size());
    return s.size() != r.size();
}
'''
