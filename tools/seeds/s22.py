ID = 's22-format-bit-lost'
PROP = 'C12'
EDITS = [('src/qrl/qrlDescriptor.h', "static_cast<eAddrFormatType>((bytes[1] & 0xF0) >> 4 )", "static_cast<eAddrFormatType>((bytes[1] & 0x70) >> 4 )")]
NEEDS = 'a descriptor with the top bit of the address format set'
BREAKS = 'an unknown address format is read as a known one and its address accepted'
DEMO = r'''
#include <cstdio>
#include <qrl/qrlDescriptor.h>
int main()
{
    int bad = 0;
    for (int f = 0; f < 16; f++)
        for (int h = 0; h < 16; h++) {
            std::vector<uint8_t> b{1, (uint8_t) (f << 4 | h), 0};
            try {
                if (QRLDescriptor::fromBytes(b).getBytes() != b) bad++;
            } catch (std::invalid_argument &) { }
        }
    printf("%d descriptors change when read and written\n", bad);
    return bad != 0;
}
'''
