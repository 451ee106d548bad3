ID = 's33-js-wallet-hash'
PROP = 'C32'
EDITS = [('src/jswrapper/jsqrlwrapper.cpp', """        auto extended_seed = mnemonic2bin(mnemonic);
        auto descr = QRLDescriptor::fromExtendedSeed(extended_seed);

        auto raw_seed = std::vector<uint8_t>(
            extended_seed.cbegin()+QRLDescriptor::getSize(),
            extended_seed.cend()
        );

        return XmssWrapper(
            raw_seed,
            descr.getHeight(),
            descr.getHashFunction()
        );""", """        auto extended_seed = mnemonic2bin(mnemonic);
        auto descr = QRLDescriptor::fromExtendedSeed(extended_seed);

        auto raw_seed = std::vector<uint8_t>(
            extended_seed.cbegin()+QRLDescriptor::getSize(),
            extended_seed.cend()
        );

        return XmssWrapper(
            raw_seed,
            descr.getHeight(),
            static_cast<eHashFunction>(descr.getHashFunction() & 1)
        );""")]
NEEDS = 'a SHAKE_256 wallet restored from its mnemonic in JavaScript'
BREAKS = 'the restored wallet has another public key and address'
DEMO = r'''
#include <cstdio>
#include <sstream>
#include "jswrapper/jsqrlwrapper.cpp"
using Xmss::XmssWrapper;
int main()
{
    int bad = 0;
    for (int h = 0; h < 3; h++) {
        auto a = XmssWrapper::fromParameters(TSEED(48, 9), 4, (eHashFunction) h);
        if (XmssWrapper::fromMnemonic(a.getMnemonic()).getAddress() != a.getAddress()) { printf("hash %d: mnemonic gives another address\n", h); bad = 1; }
        if (XmssWrapper::fromHexSeed(a.getHexSeed()).getAddress() != a.getAddress()) { printf("hash %d: hex seed gives another address\n", h); bad = 1; }
    }
    return bad;
}
'''
