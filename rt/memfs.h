// In-memory file system shared by the symbolic and the native world.
#pragma once
#include <string>
#include <vector>
#include <cstdint>
namespace memfs
{
struct file
{
    std::string name;
    std::vector<char> data;
    bool dir = false, open_fails = false;
};
file *find(const std::string &name);
file &create(const std::string &name); // truncates
void mkdir(const std::string &name);
void put(const std::string &name, const void *p, size_t n);
extern int write_budget; // >= 0: remaining bytes a stream may write before it fails (disk full)
extern bool write_behind; // that failure shows only when the stream is flushed, repositioned or closed
} // namespace memfs
