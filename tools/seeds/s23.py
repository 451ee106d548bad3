ID = 's23-index-top-byte'
PROP = 'C11'
EDITS = [('src/qrl/xmssBase.cpp', """    return (_sk[0] << 24)+
           (_sk[1] << 16)+""", """    return (_sk[0] << 16)+
           (_sk[1] << 16)+""")]
NEEDS = 'an index of 2^24 or more'
BREAKS = 'getIndex does not read back what the key contains'
DEMO = r'''
#include <cstdio>
#include <qrl/xmssBasic.h>
int main()
{
    XmssBasic k(TSEED(48, 7), 4, eHashFunction::SHAKE_128, eAddrFormatType::SHA256_2X, 16);
    int bad = 0;
    for (uint32_t i : {0u, 1u, 0x100u, 0x10000u, 0x123456u, 0x1000000u, 0x3fffffffu}) {
        k._sk[0] = i >> 24;
        k._sk[1] = i >> 16;
        k._sk[2] = i >> 8;
        k._sk[3] = i;
        if (k.getIndex() != i) {
            printf("index %u reads as %u\n", i, k.getIndex());
            bad = 1;
        }
    }
    return bad;
}
'''
