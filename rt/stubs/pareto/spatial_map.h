// stand-in for the spatial map the sandbox does not have: an ordered list of points with values
#pragma once
#include <array>
#include <cstddef>
#include <utility>
#include <vector>
namespace pareto
{
template<typename T, size_t N>
struct point : std::array<T, N>
{
    point() = default;
    template<typename... A>
    point(A... a) : std::array<T, N>{static_cast<T>(a)...}
    {
    }
};
template<typename T, size_t N, typename V>
class spatial_map
{
    std::vector<std::pair<point<T, N>, V>> items;

public:
    using iterator = typename std::vector<std::pair<point<T, N>, V>>::iterator;
    void emplace(const point<T, N> &p, const V &v) { items.emplace_back(p, v); }
    iterator begin() { return items.begin(); }
    iterator end() { return items.end(); }
    iterator find_intersection(const point<T, N> &lo, const point<T, N> &hi)
    {
        for (auto it = items.begin(); it != items.end(); ++it) {
            bool inside = true;
            for (size_t i = 0; i < N; i++) inside = inside && lo[i] <= it->first[i] && it->first[i] <= hi[i];
            if (inside) return it;
        }
        return items.end();
    }
    void clear() { items.clear(); }
    size_t size() const { return items.size(); }
};
}
