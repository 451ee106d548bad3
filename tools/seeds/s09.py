ID = 's09-rewind-by-one'
PROP = 'C09'
EDITS = [('src/xmss-alt/algsxmss_fast.c', "    if (new_idx<current_idx)\n", "    if (new_idx + 1 < current_idx)\n")]
NEEDS = 'setting the index to the one used by the last signature'
BREAKS = 'the key can be moved back by one, so a one-time key signs twice'
DEMO = r'''
#include <cstdio>
#include <stdexcept>
#include <qrl/xmssFast.h>
int main()
{
    XmssFast k(TSEED(48, 7), 4);
    k.sign({1});
    k.sign({2});
    int bad = 0;
    for (unsigned t : {0u, 1u}) {
        try { k.setIndex(t); printf("moved back to %u\n", t); bad = 1; }
        catch (std::invalid_argument &) { }
        if (k.getIndex() != 2) bad = 1;
    }
    k.setIndex(2);
    return bad;
}
'''
