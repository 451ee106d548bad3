ID = 's40-mnemonic-nibble-count'
PROP = 'C15'
EDITS = [('src/qrl/misc.cpp', "nibble < vec.size() * 2; nibble += 3", "nibble < (uint8_t) (vec.size() * 2); nibble += 3")]
NEEDS = 'more than 127 bytes'
BREAKS = 'the mnemonic holds only the first part of the bytes'
DEMO = r'''
#include <cstdio>
#include <qrl/misc.h>
int main()
{
    int bad = 0;
    for (size_t n : {3, 51, 126, 129, 300}) {
        std::vector<unsigned char> b(n);
        for (size_t i = 0; i < n; i++) b[i] = (unsigned char) (i * 37 + 5);
        if (mnemonic2bin(bin2mnemonic(b)) != b) { printf("%zu bytes do not come back\n", n); bad = 1; }
    }
    return bad;
}
'''
