ID = 's16-entropy-overwrites'
PROP = 'C16'
EDITS = [('src/qrl/misc.cpp', "    tmp.insert(tmp.end(), tmpbytes.begin(), tmpbytes.end());\n", "    // Mix the extra entropy in\n    for (size_t i = 0; i < tmpbytes.size() && i < tmp.size(); i++) {\n        tmp[i] = tmpbytes[i];\n    }\n")]
NEEDS = 'an entropy string at least as long as the seed'
BREAKS = 'the bytes of the system generator are overwritten by the caller string: the seed is predictable'
DEMO = r'''
#include <cstdio>
#include <string>
#include <qrl/misc.h>
int main()
{
    int bad = 0;
    for (size_t n : {0, 1, 47, 48, 100}) {
        std::string e(n, 'x');
        if (getRandomSeed(48, e) == getRandomSeed(48, e)) {
            printf("two seeds with %zu bytes of entropy are equal\n", n);
            bad = 1;
        }
    }
    return bad;
}
'''
