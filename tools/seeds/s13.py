ID = 's13-pool-index-32bit'
PROP = 'C18'
EDITS = [('src/qrl/xmssPool.cpp', "    auto idx = index + 1;\n", "    auto idx = static_cast<uint32_t>(index) + 1ULL;\n")]
NEEDS = 'two pool indices 2^32 apart'
BREAKS = 'trees 2^32 apart come from the same seed'
DEMO = r'''
#include <cstdio>
#include <set>
#include <qrl/xmssPool.h>
#include <qrl/xmssFast.h>
int main()
{
    std::set<TKEY> s;
    size_t n = 0;
    for (size_t i : {0ul, 1ul, 254ul, 255ul, 256ul, 65535ul, 4294967294ul, 4294967295ul, 4294967296ul, 4294967297ul}) {
        XmssPool p(TSEED(48, 3), 4, i, 0);
        s.insert(p.getNextTree()->getPK());
        n++;
    }
    printf("%zu indices, %zu trees\n", n, s.size());
    return s.size() != n;
}
'''
