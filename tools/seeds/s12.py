ID = 's12-pool-claim-late'
PROP = 'C17'
EDITS = [('src/qrl/xmssPool.cpp', "            index = _current_index++;\n", "            index = _current_index;\n"),
         ('src/qrl/xmssPool.cpp', "        return prepareTree(index);\n    }\n\n    return pending", "        auto tree = prepareTree(index);\n        _current_index++;\n        return tree;\n    }\n\n    return pending")]
NEEDS = 'two threads taking a tree from a pool with an empty cache at the same time'
BREAKS = 'both get the same tree, and so the same one-time keys'
DEMO = r'''
#include <cstdio>
#include <set>
#include <thread>
#include <atomic>
#include <qrl/xmssPool.h>
#include <qrl/xmssFast.h>
int main()
{
    for (int round = 0; round < 20; round++) {
        XmssPool pool(TSEED(48, 7), 4, 0, 0);
        std::vector<TKEY> got(4);
        std::atomic<int> ready{0};
        std::vector<std::thread> t;
        for (int i = 0; i < 4; i++)
            t.emplace_back([&, i] {
                ready++;
                while (ready < 4) { }
                got[i] = pool.getNextTree()->getPK();
            });
        for (auto &x : t) x.join();
        if (std::set<TKEY>(got.begin(), got.end()).size() != 4) {
            printf("two callers got the same tree (round %d)\n", round);
            return 1;
        }
    }
    return 0;
}
'''
