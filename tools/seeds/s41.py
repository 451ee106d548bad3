ID = 's41-hex-wide-wrap'
PROP = 'C15'
EDITS = [('src/qrl/misc.cpp', "            if (count > wrap) {\n                ss << \"\\n\";\n                count = 1;", "            if (count > wrap) {\n                ss << \"\\n\";\n                count = wrap > 255 ? 0 : 1;")]
NEEDS = 'hex text printed with a wrap width above 255 and at least three lines'
BREAKS = 'lines after the first are one byte too long'
DEMO = r'''
#include <cstdio>
#include <sstream>
#include <qrl/misc.h>
int main()
{
    int bad = 0;
    for (int w : {1, 5, 255, 256, 300}) {
        auto s = bin2hstr(std::vector<unsigned char>(1000, 0xab), (unsigned) w);
        std::istringstream in(s);
        std::string l;
        size_t left = 2000;
        while (std::getline(in, l)) {
            size_t want = left < 2u * w ? left : 2u * w;
            if (l.size() != want) { printf("width %d: a line of %zu digits\n", w, l.size()); bad = 1; break; }
            left -= want;
        }
    }
    return bad;
}
'''
