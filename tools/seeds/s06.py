ID = 's06-height-mismatch'
PROP = 'C10'
EDITS = [('src/qrl/xmssBase.cpp', "if (height==0 || desc.getHeight()!=height) {", "if (height==0 || desc.getHeight()<height) {")]
NEEDS = 'a key whose descriptor announces a taller tree than the signature has levels'
BREAKS = 'a signature whose size contradicts the height in the descriptor is accepted'
DEMO = r'''
#include <cstdio>
#include <qrl/xmssFast.h>
int main()
{
    XmssFast k(TSEED(48, 7), 4);
    std::vector<uint8_t> m{1, 2, 3};
    auto sig = k.sign(m);
    auto pk = k.getPK();
    int bad = !XmssBase::verify(m, sig, pk);
    for (int h = 0; h < 16; h++) {
        if (h == 2) continue;
        auto q = pk;
        q[1] = (q[1] & 0xf0) | h;
        if (XmssBase::verify(m, sig, q)) {
            printf("accepted under height %d\n", 2 * h);
            bad = 1;
        }
    }
    return bad;
}
'''
