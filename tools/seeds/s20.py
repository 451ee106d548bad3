ID = 's20-empty-message-randomiser'
PROP = 'C26'
EDITS = [('src/xmss-alt/algsxmss.c', "    prf(hash_func, R, idx_bytes_32, sk_prf, n);\n", "    memcpy(R, sk_prf, n);\n    if (msglen > 0)\n        prf(hash_func, R, idx_bytes_32, sk_prf, n);\n")]
NEEDS = 'signing the empty message with the basic signer'
BREAKS = 'the signature contains the randomiser key'
DEMO = r'''
#include <cstdio>
#include <cstring>
#include <qrl/xmssBasic.h>
int main()
{
    XmssBasic k(TSEED(48, 7), 4, eHashFunction::SHAKE_128, eAddrFormatType::SHA256_2X, 16);
    int bad = 0;
    for (size_t n : {0, 1, 32, 200}) {
        auto sig = k.sign(std::vector<uint8_t>(n, 1));
        auto key = k.getSKPRF();
        for (size_t i = 0; i + 32 <= sig.size(); i++)
            if (!memcmp(&sig[i], key.data(), 32)) {
                printf("SK_PRF at offset %zu of the signature of %zu bytes\n", i, n);
                bad = 1;
            }
    }
    return bad;
}
'''
