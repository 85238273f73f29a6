#pragma once
#include <cstddef>
namespace tbb
{
class global_control
{
public:
    enum parameter { max_allowed_parallelism };
    global_control(parameter, size_t) {}
    static size_t active_value(parameter) { return 1; }
};
}
