ID = 's17-static-mask-buffer'
PROP = 'C19'
EDITS = [('src/xmss-alt/hash.c', "    unsigned char buf[2 * n];\n    unsigned char key[n];\n    unsigned char bitmask[2 * n];\n", "    unsigned char buf[2 * n];\n    unsigned char key[n];\n    static unsigned char bitmask[2 * 64];\n")]
NEEDS = 'two threads verifying (or signing) at the same time'
BREAKS = 'the bit masks of one computation are overwritten by another'
DEMO = r'''
#include <cstdio>
#include <atomic>
#include <thread>
#include <qrl/xmssFast.h>
int main()
{
    XmssFast k(TSEED(48, 7), 4);
    std::vector<uint8_t> m{1, 2, 3};
    auto sig = k.sign(m);
    auto pk = k.getPK();
    std::atomic<int> bad{0};
    std::vector<std::thread> t;
    for (int i = 0; i < 8; i++)
        t.emplace_back([&] {
            for (int j = 0; j < 300; j++)
                if (!XmssBase::verify(m, sig, pk)) bad++;
        });
    for (auto &x : t) x.join();
    printf("%d honest signatures refused\n", bad.load());
    return bad != 0;
}
'''
