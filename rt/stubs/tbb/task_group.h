#pragma once
#include "par_order.h"
#include <functional>
namespace tbb
{
class task_group
{
    std::vector<std::function<void()>> q;

public:
    template<typename F> void run(F &&f)
    {
        if (sx_par_order == 0) f();
        else q.emplace_back(f);
    }
    template<typename F> void run_and_wait(F &&f) { run(f); wait(); }
    void wait()
    {
        auto t = std::move(q);
        q.clear();
        sx_tbb::for_each_index(t.size(), [&](size_t k) { t[k](); });
    }
};
} // namespace tbb
