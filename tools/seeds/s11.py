ID = 's11-long-seed-truncated'
PROP = 'C25'
EDITS = [('src/qrl/xmssBase.cpp', "    if (seed.size()!=48) {", "    if (seed.size()<48) {")]
NEEDS = 'a seed longer than 48 bytes given to XmssFast'
BREAKS = 'the seed is silently cut: different seeds make the same key'
DEMO = r'''
#include <cstdio>
#include <stdexcept>
#include <qrl/xmssFast.h>
int main()
{
    int bad = 0;
    for (size_t n : {0, 1, 47, 49, 51, 64, 96}) {
        try { XmssFast k(TSEED(n, 7), 4); printf("seed of %zu bytes accepted\n", n); bad = 1; }
        catch (std::invalid_argument &) { }
    }
    XmssFast k(TSEED(48, 7), 4);
    return bad;
}
'''
