// Sequential stand-ins for TBB: the tasks of one call run one after another, in the order
// the harness selects (sx_par_order 0: forward, 1: backward, 2: every order, decided by the solver).
// A task can be made to overlap with others: sx_par_run_other() runs a task that has not been
// started yet to its end, inside the current one.
#pragma once
#include "sx.h"
#include <vector>
#include <cstddef>
extern "C" int sx_par_order;
extern "C" int sx_par_run_other(); // 0: there is none
namespace sx_tbb
{
struct loop
{
    std::vector<size_t> left;
    const void *ctx;
    void (*call)(const void *, size_t);
    loop *outer;
};
extern loop *current;
void run(loop &l);
template<typename F> void for_each_index(size_t n, const F &f)
{
    loop l{{}, &f, [](const void *c, size_t i) { (*(const F *)c)(i); }, nullptr};
    l.left.resize(n);
    for (size_t i = 0; i < n; i++) l.left[i] = i;
    run(l);
}
} // namespace sx_tbb
