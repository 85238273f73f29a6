#pragma once
#include "par_order.h"
#include "parallel_for.h"
#include <iterator>
namespace tbb
{
template<typename C, typename F> void parallel_for_each(C &&c, const F &f)
{
    std::vector<decltype(&*std::begin(c))> p;
    for (auto &x : c) p.push_back(&x);
    sx_tbb::for_each_index(p.size(), [&](size_t k) { f(*p[k]); });
}
template<typename I, typename F> void parallel_for_each(I a, I b, const F &f)
{
    for (; a != b; ++a) f(*a);
}
} // namespace tbb
