#include "memfs.h"
#include <filesystem>
#include <chrono>
#include "sx.h"
namespace memfs
{
int write_budget = -1;
bool write_behind = false;
static std::vector<file *> &all()
{
    static std::vector<file *> v;
    return v;
}
file *find(const std::string &name)
{
    for (file *f : all())
        if (f->name == name) return f;
    return nullptr;
}
file &create(const std::string &name)
{
    file *f = find(name);
    if (!f) {
        f = new file;
        f->name = name;
        all().push_back(f);
    }
    f->data.clear();
    return *f;
}
void mkdir(const std::string &name) { create(name).dir = true; }
void put(const std::string &name, const void *p, size_t n)
{
    file &f = create(name);
    f.data.assign((const char *)p, (const char *)p + n);
}
} // namespace memfs
// the queries of <filesystem> that ericw-tools makes, answered from the in-memory files
namespace std::filesystem
{
file_status status(const path &p)
{
    auto *f = memfs::find(p.native());
    if (!f) return file_status(file_type::not_found);
    return file_status(f->dir ? file_type::directory : file_type::regular);
}
file_status status(const path &p, error_code &ec) noexcept { return status(p); }
uintmax_t file_size(const path &p)
{
    auto *f = memfs::find(p.native());
    if (!f) sx_fail("file_size of a missing file");
    return f->data.size();
}
bool equivalent(const path &a, const path &b) { return a.native() == b.native(); }
bool remove(const path &p)
{
    auto *f = memfs::find(p.native());
    if (!f) return false;
    f->name = "\x01removed";
    return true;
}
bool remove(const path &p, error_code &) noexcept { return remove(p); }
void rename(const path &a, const path &b, error_code &ec) noexcept
{
    auto *f = memfs::find(a.native());
    if (!f) {
        ec = std::make_error_code(std::errc::no_such_file_or_directory);
        return;
    }
    remove(b);
    f->name = b.native();
}
void rename(const path &a, const path &b)
{
    error_code ec;
    rename(a, b, ec);
}
path canonical(const path &p) { return p; }
path weakly_canonical(const path &p) { return p; }
path absolute(const path &p) { return p.is_absolute() ? p : path("/cwd") / p; }
file_time_type last_write_time(const path &) { return file_time_type(); }
} // namespace std::filesystem
