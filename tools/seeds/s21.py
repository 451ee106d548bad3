ID = 's21-checksum-three-bytes'
PROP = 'C13'
EDITS = [('src/qrl/qrlHelper.h', """                    address[37]==hashed_key2[30] &&
                    address[38]==hashed_key2[31];""", """                    address[37]==hashed_key2[30] &&
                    address[38]<=hashed_key2[31];""")]
NEEDS = 'an address whose last checksum byte is too small'
BREAKS = 'mistyped addresses pass the validity test'
DEMO = r'''
#include <cstdio>
#include <qrl/qrlHelper.h>
int main()
{
    std::vector<uint8_t> pk(67, 9);
    pk[0] = 1;
    pk[1] = 3;
    pk[2] = 0;
    auto a = QRLHelper::getAddress(pk);
    int bad = !QRLHelper::addressIsValid(a);
    for (size_t i = 0; i < a.size(); i++)
        for (int x = 1; x < 256; x++) {
            auto b = a;
            b[i] ^= x;
            if (QRLHelper::addressIsValid(b)) bad++;
        }
    printf("%d wrong addresses accepted\n", bad);
    return bad != 0;
}
'''
