#pragma once
#include <memory>
namespace tbb
{
template<typename T> using scalable_allocator = std::allocator<T>;
}
