ID = 's32-js-verify-parameter'
PROP = 'C32'
EDITS = [('src/jswrapper/jsqrlwrapper.cpp', "        return XmssFast::verify(message, signature, pk, wotsParamW);", "        return XmssFast::verify(message, signature, pk, wotsParamW == 4 ? 4 : 16);")]
NEEDS = 'an XmssBasic key with the Winternitz parameter 256'
BREAKS = 'the binding refuses every honest signature of such a key'
DEMO = r'''
#include <cstdio>
#include <sstream>
#include "jswrapper/jsqrlwrapper.cpp"
int main()
{
    int bad = 0;
    for (uint32_t w : {4u, 16u, 256u}) {
        XmssBasic k(TSEED(48, 3), 4, eHashFunction::SHAKE_128, eAddrFormatType::SHA256_2X, w);
        TMESSAGE m{1, 2, 3};
        auto s = k.sign(m);
        bool cpp = XmssFast::verify(m, s, k.getPK(), w), js = Xmss::XmssBasicWrapper::verify(m, s, k.getPK(), w);
        printf("w %u: library %d binding %d\n", w, cpp, js);
        if (cpp != js) bad = 1;
    }
    return bad;
}
'''
