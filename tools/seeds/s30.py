ID = 's30-pool-available-last'
PROP = 'C17'
EDITS = [('src/qrl/xmssPool.cpp', "    return _cache.front().wait_for(std::chrono::seconds(0)) == std::future_status::ready;", "    return _cache.back().wait_for(std::chrono::seconds(0)) == std::future_status::ready;")]
NEEDS = 'a moment when the oldest tree is ready and the newest is not'
BREAKS = 'a tree that is ready is reported as not available (and the other way round)'
DEMO = r'''
#include <cstdio>
#include <chrono>
#include <qrl/xmssPool.h>
#include <qrl/xmssFast.h>
int main()
{
    XmssPool pool(TSEED(48, 1), 6, 0, 3);
    std::promise<std::shared_ptr<XmssFast>> done, never;
    // in place of the three background tasks: the oldest is ready, the newest is not
    std::future<std::shared_ptr<XmssFast>> keep[3];
    for (int i = 0; i < 3; i++) { keep[i] = std::move(pool._cache.front()); pool._cache.pop_front(); }
    done.set_value(nullptr);
    pool._cache.push_back(done.get_future());
    pool._cache.push_back(never.get_future());
    bool a = pool.isAvailable();
    for (auto &k : keep) k.wait();
    printf("oldest ready, newest not: available = %d\n", a);
    return !a;
}
'''
