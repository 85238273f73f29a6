#pragma once
#include <deque>
#include <memory>
namespace tbb
{
// stable addresses under growth, like the real container
template<typename T, typename A = std::allocator<T>> class concurrent_vector : public std::deque<T, A>
{
public:
    using std::deque<T, A>::deque;
    using iterator = typename std::deque<T, A>::iterator;
    iterator push_back(const T &v) { std::deque<T, A>::push_back(v); return this->end() - 1; }
    iterator push_back(T &&v) { std::deque<T, A>::push_back(std::move(v)); return this->end() - 1; }
    template<typename... X> iterator emplace_back(X &&...x) { std::deque<T, A>::emplace_back(std::forward<X>(x)...); return this->end() - 1; }
    iterator grow_by(size_t n)
    {
        size_t o = this->size();
        this->resize(o + n);
        return this->begin() + o;
    }
    void reserve(size_t) {}
};
} // namespace tbb
