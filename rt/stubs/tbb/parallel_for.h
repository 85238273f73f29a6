#pragma once
#include "par_order.h"
#include <type_traits>
namespace tbb
{
template<typename A, typename B, typename F> void parallel_for(const A &a, const B &b, const F &f)
{
    using T = std::common_type_t<A, B>;
    if (!((T)a < (T)b)) return;
    sx_tbb::for_each_index((size_t)((T)b - (T)a), [&](size_t k) {
        const T i = (T)((T)a + (T)k);
        f(i);
    });
}
} // namespace tbb
