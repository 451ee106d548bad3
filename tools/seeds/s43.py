ID = 's43-address-last-byte-zero'
PROP = 'C13'
EDITS = [('src/qrl/qrlHelper.h', "extended_pk.begin(), extended_pk.end(), hashed_key.begin()", "extended_pk.begin(), extended_pk.end() - (extended_pk.back() == 0), hashed_key.begin()")]
NEEDS = 'a public key whose last byte is zero'
BREAKS = 'the address of that key is another one'
DEMO = r'''
#include <cstdio>
#include <algorithm>
#include <qrl/qrlHelper.h>
#include <qrl/hashing.h>
int main()
{
    int bad = 0;
    for (int b : {1, 0, 255}) {
        std::vector<uint8_t> pk(67, 3);
        pk[0] = 1; pk[1] = 5; pk[2] = 0; pk[66] = (uint8_t) b;
        auto a = QRLHelper::getAddress(pk);
        auto h = sha2_256(pk);
        if (!std::equal(h.begin(), h.end(), a.begin() + 3)) { printf("last byte %d: the address does not hold the hash of the key\n", b); bad = 1; }
    }
    return bad;
}
'''
