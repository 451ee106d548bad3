ID = 's35-fast-copyable'
PROP = 'C24'
EDITS = [('src/qrl/xmssFast.h', "    XmssFast(const TSEED& extended_seed);\n", "    XmssFast(const TSEED& extended_seed);\n\n    XmssFast(const XmssFast& other) : XmssFast(other._seed, other._height, other._hashFunction, other._addrFormatType) {}\n")]
NEEDS = 'a copy of a signing key'
BREAKS = 'the copy starts at index 0 again and issues one-time keys the original has used'
DEMO = r'''
#include <cstdio>
#include <type_traits>
#include <qrl/xmssFast.h>
int main()
{
    bool c = std::is_copy_constructible<XmssFast>::value || std::is_copy_assignable<XmssFast>::value;
    if (c) printf("XmssFast can be copied\n");
    return c;
}
'''
