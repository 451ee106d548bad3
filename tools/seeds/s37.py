ID = 's37-address-cached'
PROP = 'C13'
EDITS = [('src/qrl/xmssBase.cpp', "    return QRLHelper::getAddress(getPK());", "    static std::vector<uint8_t> cached;\n    if (cached.empty()) cached = QRLHelper::getAddress(getPK());\n    return cached;")]
NEEDS = 'two keys in one process'
BREAKS = 'the second key reports the address of the first'
DEMO = r'''
#include <cstdio>
#include <qrl/xmssFast.h>
int main()
{
    XmssFast a(TSEED(48, 1), 4), b(TSEED(48, 2), 4);
    bool same = a.getAddress() == b.getAddress();
    if (same) printf("two keys have one address\n");
    return same;
}
'''
