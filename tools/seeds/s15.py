ID = 's15-half-bad-hex'
PROP = 'C15'
EDITS = [('src/qrl/misc.cpp', "!std::isxdigit(s[i]) || !std::isxdigit(s[i + 1])", "!std::isxdigit(s[i]) && !std::isxdigit(s[i + 1])")]
NEEDS = 'a hex string with one bad digit in a pair'
BREAKS = 'malformed hex is decoded to some bytes instead of being refused'
DEMO = r'''
#include <cstdio>
#include <stdexcept>
#include <string>
#include <qrl/misc.h>
int main()
{
    int bad = 0;
    for (int pos = 0; pos < 6; pos++)
        for (int c = 1; c < 128; c++) {
            if (isxdigit(c)) continue;
            std::string s = "00ff7a";
            s[pos] = (char) c;
            try { hstr2bin(s); bad++; }
            catch (std::invalid_argument &) { }
        }
    printf("%d malformed strings accepted\n", bad);
    return bad != 0;
}
'''
