ID = 's39-empty-message'
PROP = 'C08'
EDITS = [('src/qrl/xmssFast.cpp', "    auto index = getIndex();\n    setIndex(index);\n\n    xmssfast_Signmsg", "    auto index = getIndex();\n    if (message.empty()) return signature;\n    setIndex(index);\n\n    xmssfast_Signmsg")]
NEEDS = 'an empty message'
BREAKS = 'the index does not move and the signature is zero'
DEMO = r'''
#include <cstdio>
#include <qrl/xmssFast.h>
int main()
{
    int bad = 0;
    XmssFast a(TSEED(48, 1), 4);
    for (size_t n = 0; n < 3; n++) {
        TMESSAGE m(n, 7);
        auto i = a.getIndex();
        auto s = a.sign(m);
        if (a.getIndex() != i + 1) { printf("message of %zu bytes: index stays at %u\n", n, i); bad = 1; }
    }
    return bad;
}
'''
