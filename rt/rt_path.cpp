// std::filesystem::path (the part that lives in libstdc++.so), POSIX semantics, for symbolic execution.
#include <filesystem>
#include <cstdlib>
#include <new>
#include "sx.h"
namespace std::filesystem
{
struct path::_List::_Impl
{
    alignas(16) size_t n;
    _Cmpt *items() { return (_Cmpt *)(this + 1); }
    const _Cmpt *items() const { return (const _Cmpt *)(this + 1); }
};
static path::_List::_Impl *raw_impl(size_t n)
{
    auto *p = (path::_List::_Impl *)::operator new(sizeof(path::_List::_Impl) + n * sizeof(path::_Cmpt));
    p->n = n;
    return p;
}
void path::_List::_Impl_deleter::operator()(_Impl *p) const noexcept
{
    if ((uintptr_t)p & 3) return; // single component: only a type tag
    if (!p) return;
    for (size_t i = 0; i < p->n; i++) p->items()[i].~_Cmpt();
    ::operator delete(p);
}
path::_List::_List() : _M_impl((_Impl *)(uintptr_t)_Type::_Filename) {}
path::_List::_List(const _List &o)
{
    if (o.type() != _Type::_Multi) {
        _M_impl.reset((_Impl *)(uintptr_t)o.type());
        return;
    }
    const _Impl *s = o._M_impl.get();
    if (!s) return;
    _Impl *d = raw_impl(s->n);
    for (size_t i = 0; i < s->n; i++) new (d->items() + i) _Cmpt(s->items()[i]);
    _M_impl.reset(d);
}
path::_List &path::_List::operator=(const _List &o)
{
    _List t(o);
    _M_impl = std::move(t._M_impl);
    return *this;
}
void path::_List::type(_Type t) noexcept
{
    _M_impl.reset(t == _Type::_Multi ? nullptr : (_Impl *)(uintptr_t)t);
}
path::_List::const_iterator path::_List::begin() const noexcept { return _M_impl->items(); }
path::_List::const_iterator path::_List::end() const noexcept { return _M_impl->items() + _M_impl->n; }
path::_List::iterator path::_List::begin() noexcept { return _M_impl->items(); }
path::_List::iterator path::_List::end() noexcept { return _M_impl->items() + _M_impl->n; }
int path::_List::size() const noexcept { return type() == _Type::_Multi && _M_impl ? (int)_M_impl->n : 0; }
bool path::_List::empty() const noexcept { return size() == 0; }

static bool isslash(char c) { return c == '/'; }
path::_Cmpt::_Cmpt(std::string_view v, _Type t, size_t pos) : _M_pos(pos)
{
    _M_pathname.assign(v.data(), v.size());
    _M_cmpts.type(t);
}
void path::_M_split_cmpts()
{
    const std::string &s = _M_pathname;
    const size_t len = s.size();
    _M_cmpts.type(_Type::_Filename);
    if (!len) return;
    if (len == 1 && isslash(s[0])) {
        _M_cmpts.type(_Type::_Root_dir);
        return;
    }
    size_t cnt = 0, pos = 0;
    bool anyslash = false;
    for (size_t i = 0; i < len; i++) anyslash |= isslash(s[i]);
    if (!anyslash) return;
    // count, then build
    path::_List::_Impl *impl = nullptr;
    for (int pass = 0; pass < 2; pass++) {
        size_t k = 0;
        pos = 0;
        if (isslash(s[0])) {
            if (pass) new (impl->items() + k) _Cmpt(std::string_view(s).substr(0, 1), _Type::_Root_dir, 0);
            k++;
            while (pos < len && isslash(s[pos])) pos++;
        }
        size_t back = pos;
        while (pos < len) {
            if (isslash(s[pos])) {
                if (back != pos) {
                    if (pass) new (impl->items() + k) _Cmpt(std::string_view(s).substr(back, pos - back), _Type::_Filename, back);
                    k++;
                }
                back = ++pos;
            } else
                ++pos;
        }
        if (back != pos) {
            if (pass) new (impl->items() + k) _Cmpt(std::string_view(s).substr(back), _Type::_Filename, back);
            k++;
        } else if (k && !(k == 1 && isslash(s[0])) && isslash(s[len - 1])) {
            // trailing slash: empty filename
            if (pass) new (impl->items() + k) _Cmpt(std::string_view(), _Type::_Filename, pos);
            k++;
        }
        if (!pass) {
            cnt = k;
            if (cnt == 1 && isslash(s[0])) { // "//": only a root directory
                _M_cmpts.type(_Type::_Root_dir);
                return;
            }
            impl = raw_impl(cnt);
        }
    }
    _M_cmpts.type(_Type::_Multi);
    _M_cmpts._M_impl.reset(impl);
}
path &path::operator=(const path &p)
{
    if (this != &p) {
        _M_pathname = p._M_pathname;
        _M_split_cmpts();
    }
    return *this;
}
bool path::has_root_directory() const noexcept { return !_M_pathname.empty() && isslash(_M_pathname[0]); }
bool path::has_root_name() const noexcept { return false; }
bool path::has_root_path() const noexcept { return has_root_directory(); }
static size_t relstart(const std::string &s)
{
    size_t i = 0;
    while (i < s.size() && isslash(s[i])) i++;
    return i;
}
bool path::has_relative_path() const noexcept { return relstart(_M_pathname) < _M_pathname.size(); }
bool path::has_parent_path() const noexcept { return !parent_path().empty(); }
bool path::has_filename() const noexcept
{
    return !_M_pathname.empty() && !isslash(_M_pathname.back());
}
path path::root_name() const { return path(); }
path path::root_directory() const { return has_root_directory() ? path("/") : path(); }
path path::root_path() const { return root_directory(); }
path path::relative_path() const { return path(_M_pathname.substr(relstart(_M_pathname))); }
path path::parent_path() const
{
    const std::string &s = _M_pathname;
    size_t r = relstart(s);
    if (r >= s.size()) return *this;
    size_t e = s.size();
    while (e > r && !isslash(s[e - 1])) e--; // drop the last component
    while (e > r && isslash(s[e - 1])) e--;  // and the separators before it
    return path(s.substr(0, e));
}
void path::_M_append(std::string_view s) { *this /= path(std::string(s)); }
void path::_M_concat(std::string_view s)
{
    _M_pathname.append(s.data(), s.size());
    _M_split_cmpts();
}
path &path::operator/=(const path &p)
{
    if (p.is_absolute()) return *this = p;
    std::string rhs = p._M_pathname;
    if (has_filename()) _M_pathname.push_back('/');
    _M_pathname.append(rhs);
    _M_split_cmpts();
    return *this;
}
path &path::operator+=(const path &p)
{
    _M_pathname.append(std::string(p._M_pathname));
    _M_split_cmpts();
    return *this;
}
path &path::remove_filename()
{
    size_t e = _M_pathname.size();
    while (e && !isslash(_M_pathname[e - 1])) e--;
    _M_pathname.resize(e);
    _M_split_cmpts();
    return *this;
}
path &path::replace_filename(const path &p)
{
    path t(p);
    remove_filename();
    return *this /= t;
}
std::pair<const path::string_type *, size_t> path::_M_find_extension() const noexcept
{
    const string_type *s = nullptr;
    if (_M_type() == _Type::_Filename)
        s = &_M_pathname;
    else if (_M_type() == _Type::_Multi && _M_cmpts.size()) {
        const auto &c = *(_M_cmpts.end() - 1);
        if (c._M_type() == _Type::_Filename) s = &c._M_pathname;
    }
    if (s) {
        if (s->size() > 0) {
            if (s->size() <= 2 && (*s)[0] == '.') {
                if (s->size() == 1 || (*s)[1] == '.') return {s, string_type::npos};
                return {s, string_type::npos};
            }
            size_t pos = string_type::npos;
            for (size_t i = s->size(); i-- > 0;)
                if ((*s)[i] == '.') {
                    pos = i;
                    break;
                }
            return {s, pos ? pos : string_type::npos};
        }
        return {s, string_type::npos};
    }
    return {};
}
path &path::replace_extension(const path &r)
{
    auto ext = _M_find_extension();
    if (ext.first && ext.second != string_type::npos) {
        size_t drop = ext.first->size() - ext.second;
        _M_pathname.resize(_M_pathname.size() - drop);
    }
    std::string rs = r._M_pathname;
    if (!rs.empty()) {
        if (rs[0] != '.') _M_pathname.push_back('.');
        _M_pathname.append(rs);
    }
    _M_split_cmpts();
    return *this;
}
struct Walk
{
    const std::string &s;
    size_t pos;
    bool trailing = false, done = false;
    Walk(const std::string &x) : s(x), pos(relstart(x)) {}
    bool next(std::string &out)
    {
        if (trailing) {
            trailing = false;
            out.clear();
            return true;
        }
        if (pos >= s.size()) return false;
        size_t b = pos;
        while (pos < s.size() && !isslash(s[pos])) pos++;
        out = s.substr(b, pos - b);
        bool slash = false;
        while (pos < s.size() && isslash(s[pos])) { pos++; slash = true; }
        if (slash && pos >= s.size()) trailing = true;
        return true;
    }
};
int path::compare(const path &p) const noexcept
{
    int a = has_root_directory(), b = p.has_root_directory();
    if (a != b) return a - b;
    Walk x(_M_pathname), y(p._M_pathname);
    std::string u, v;
    for (;;) {
        bool gx = x.next(u), gy = y.next(v);
        if (!gx || !gy) return (int)gx - (int)gy;
        if (int c = u.compare(v)) return c;
    }
}
int path::compare(std::string_view s) const noexcept { return compare(path(std::string(s))); }
path path::lexically_relative(const path &base) const
{
    path ret;
    if (has_root_directory() != base.has_root_directory()) return ret;
    Walk x(_M_pathname), y(base._M_pathname);
    std::string u, v;
    bool gx = x.next(u), gy = y.next(v);
    while (gx && gy && u == v) {
        gx = x.next(u);
        gy = y.next(v);
    }
    if (!gx && !gy) return path(".");
    int n = 0;
    for (; gy; gy = y.next(v)) {
        if (v == "..") --n;
        else if (!v.empty() && v != ".") ++n;
    }
    if (n == 0 && (!gx || u.empty())) return path(".");
    if (n < 0) return ret;
    while (n--) ret /= path("..");
    for (; gx; gx = x.next(u)) ret /= path(u);
    return ret;
}
path path::lexically_normal() const { sx_fail("lexically_normal is not modelled"); }
} // namespace std::filesystem
