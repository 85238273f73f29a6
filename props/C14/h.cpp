// Archives and search paths: files are found by name in the documented order and read as they are stored.
#include "sx.h"
#include "memfs.h"
#include <common/fs.hh>
#include <optional>
#include <common/cmdlib.hh>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>

using bytes = std::vector<uint8_t>;
static void le32(bytes &b, size_t at, uint32_t v)
{
    for (int i = 0; i < 4; i++) b[at + i] = (uint8_t)(v >> (8 * i));
}
static bytes any_bytes(int n, const char *name)
{
    bytes b(n);
    if (n) sx_symbolic(b.data(), n, name);
    return b;
}
// one of some letter cases
static std::string cased(std::string s)
{
    uint32_t mask = sx_concretize(sx_choice(4, "case")) * 5; // which of every four letters are capitals
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] >= 'a' && s[i] <= 'z' && (mask >> i % 4 & 1)) s[i] -= 32;
    return s;
}
struct stored_t
{
    std::string name;
    bytes data;
};
// where the directory is: 0 right after the header, 1 after the data; gap bytes between
static void put_archive(const char *path, bool wad, const std::vector<stored_t> &files, int layout, int gap)
{
    size_t entry = wad ? 32 : 64, total = 12 + gap, dir, at;
    for (auto &f : files) total += f.data.size() + gap;
    total += files.size() * entry;
    bytes b(total);
    if (layout == 0) dir = 12, at = 12 + files.size() * entry + gap;
    else at = 12 + gap, dir = total - files.size() * entry;
    memcpy(b.data(), wad ? (layout ? "WAD3" : "WAD2") : "PACK", 4);
    if (wad) le32(b, 4, (uint32_t)files.size()), le32(b, 8, (uint32_t)dir);
    else le32(b, 4, (uint32_t)dir), le32(b, 8, (uint32_t)(files.size() * 64));
    for (auto &f : files) {
        size_t name = wad ? dir + 16 : dir, pos = wad ? dir : dir + 56, size = pos + 4;
        memcpy(b.data() + name, f.name.data(), f.name.size());
        le32(b, pos, (uint32_t)at);
        le32(b, size, (uint32_t)f.data.size());
        if (!f.data.empty()) memcpy(b.data() + at, f.data.data(), f.data.size());
        at += f.data.size() + gap;
        dir += entry;
    }
    memfs::put(path, b.data(), b.size());
}
static bool same(const fs::data &d, const bytes &b) { return d && *d == b; }
static bool iequal(const std::string &a, const std::string &b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
        char x = a[i], y = b[i];
        if (x >= 'A' && x <= 'Z') x += 32;
        if (y >= 'A' && y <= 'Z') y += 32;
        if (x != y) return false;
    }
    return true;
}

// every file of an archive, under its name in any letter case
SX_ENTRY(archive)
{
    bool wad = sx_param(0);
    int layout = (int)sx_param(1), n = (int)sx_param(2), gap = (int)sx_param(3), full = (int)sx_param(4);
    static const char *paks[] = {"maps/a.bsp", "b", "maps/", "maps/c.lit"};
    static const char *wads[] = {"brick", "*lava", "", "+0b"};
    std::vector<stored_t> files;
    for (int i = 0; i < n; i++) {
        std::string name = (wad ? wads : paks)[i % 4];
        if (i == full) name.resize(wad ? 16 : 56, 'n'); // fills its field
        files.push_back({cased(name), any_bytes((i * 3 + n) % 5, "data")});
    }
    const char *path = wad ? "a.wad" : "a.pak";
    put_archive(path, wad, files, layout, gap);
    auto a = fs::addArchive(path, true);
    sx_assert(a != nullptr && a->external, "the archive is added");
    sx_assert(fs::addArchive(path) == a, "and only once");
    for (auto &f : files) {
        std::string query = cased(f.name);
        auto at = fs::where(query);
        sx_assert(at && at.archive == a, "the file is found");
        sx_assert(same(fs::load(at), f.data), "the file is read as it was stored");
    }
    sx_assert(!fs::where(wad ? "bric" : "a.bsp") && !fs::load("nothing"), "what is not there is not found");
    std::string direct = std::string(path) + "/" + files[0].name;
    if (wad && !files[0].name.empty() && files[0].name.find('/') == std::string::npos) {
        sx_assert(same(fs::load(direct), files[0].data), "a file is read from an archive given by name");
    }
    sx_reach("archive");
}

// a damaged archive is refused or gives only what is there; one bad entry does not spoil the others
SX_ENTRY(damaged)
{
    bool wad = sx_param(0);
    int what = (int)sx_param(1);
    std::vector<stored_t> files{{"one", {'d', 0, 200}}, {"two", {1, 'e'}}};
    if (what >= 3) files[0].data = any_bytes(3, "data"), files[1].data = any_bytes(2, "data");
    const char *path = wad ? "a.wad" : "a.pak";
    put_archive(path, wad, files, 0, 0);
    auto &m = memfs::find(path)->data;
    size_t entry = wad ? 32 : 64;
    int word[] = {0, 4, 8, 12 + (wad ? 0 : 56), 12 + (wad ? 4 : 60)};
    size_t pos = 0, size = 0;
    if (what < 5) {
        uint32_t v = sx_any<uint32_t>("word");
        if (what < 3 && v <= m.size()) v = (uint32_t)sx_concretize(v);
        for (int i = 0; i < 4; i++) m[word[what] + i] = (char)(v >> (8 * i));
    } else if (what == 5) {
        size_t n = sx_choice((uint32_t)m.size() + 1 > 200 ? 200 : (uint32_t)m.size() + 1, "length");
        m.resize(n);
    } else {
        // both words of an entry
        for (int w = 3; w < 5; w++) {
            uint32_t v = sx_any<uint32_t>("word");
            if (w == 3 && !sx_param(2)) sx_assume((v < 3) | (v > m.size() - 6));
            for (int i = 0; i < 4; i++) m[word[w] + i] = (char)(v >> (8 * i));
        }
    }
    auto a = fs::addArchive(path);
    if (!a) {
        sx_assert(what == 0 || what == 1 || what == 2 || what == 5, "entries do not spoil the archive");
        sx_reach("refused");
        return;
    }
    sx_reach("added");
    auto d = fs::load("one");
    auto word_at = [&](int o) { return (uint32_t)(uint8_t)m[o] | (uint32_t)(uint8_t)m[o + 1] << 8 | (uint32_t)(uint8_t)m[o + 2] << 16 | (uint32_t)(uint8_t)m[o + 3] << 24; };
    if (what >= 3 && m.size() >= 12 + 2 * entry) {
        pos = word_at(word[3]), size = word_at(word[4]);
        bool inside = pos <= m.size() && size <= m.size() - pos;
        sx_assert((bool)d == inside, "a file is loaded exactly when all of it is in the archive");
        if (d) {
            sx_assert(d->size() == size, "with its size");
            sx_reach("inside");
        } else
            sx_reach("outside");
        bool two = (size_t)(12 + 2 * entry + 5) <= m.size();
        auto e = fs::load("two");
        sx_assert((bool)e == two, "other files are not affected");
        if (e) sx_assert(*e == files[1].data, "other files are read as stored");
    }
    if (d) {
        sx_assert(d->size() <= m.size(), "nothing is read outside the archive");
        bool found = false;
        if (what >= 3) {
            uint32_t o = (uint32_t)sx_concretize(word_at(word[3]));
            found = d->empty() || memcmp(d->data(), m.data() + o, d->size()) == 0;
            sx_assert(found, "what is read is what the archive has there");
        }
    }
}

// the order in which places are searched
SX_ENTRY(order)
{
    bool loose = sx_param(0);
    const std::string name = "tex.tga";
    bytes content[5];
    for (int i = 0; i < 5; i++) content[i] = any_bytes(1, "data");
    bool in_d1 = sx_bool("in d1"), in_d2 = sx_bool("in d2"), in_a1 = sx_bool("in a1"), in_a2 = sx_bool("in a2"), in_cwd = sx_bool("in cwd");
    // a folder may have the file's name
    bool folder = sx_bool("folder");
    memfs::mkdir("d1");
    memfs::mkdir("d2");
    if (in_d1) memfs::put("d1/tex.tga", content[0].data(), 1);
    else if (folder) memfs::mkdir("d1/tex.tga");
    if (in_d2) memfs::put("d2/tex.tga", content[1].data(), 1);
    else if (folder) memfs::mkdir("d2/tex.tga");
    if (in_cwd) memfs::put("tex.tga", content[4].data(), 1);
    else if (folder) memfs::mkdir("tex.tga");
    put_archive("a1.pak", false, {{in_a1 ? name : "x", content[2]}}, 0, 0);
    put_archive("a2.wad", true, {{in_a2 ? name : "x", content[3]}}, 1, 0);
    fs::clear();
    fs::addArchive("d1");
    fs::addArchive("a1.pak");
    fs::addArchive("d2");
    fs::addArchive("a2.wad");
    if (sx_bool("again")) fs::addArchive("d1"), fs::addArchive("a1.pak"); // no effect
    sx_assert(!fs::addArchive("") && !fs::addArchive("missing.pak"), "what is not there cannot be added");
    auto got = fs::load(fs::path(name), loose);
    const bytes *want = nullptr;
    auto dirs = [&] { if (!want && in_d2) want = &content[1]; if (!want && in_d1) want = &content[0]; };
    auto archives = [&] { if (!want && in_a2) want = &content[3]; if (!want && in_a1) want = &content[2]; };
    auto cwd = [&] { if (!want && in_cwd) want = &content[4]; };
    if (loose) cwd(), dirs(), archives();
    else archives(), dirs(), cwd();
    if (want) sx_assert(same(got, *want), "the file comes from the first place that has it");
    else sx_assert(!got, "a file that is nowhere is not found");
    fs::clear();
    sx_assert((bool)fs::load(fs::path(name), loose) == in_cwd, "cleared paths are not searched");
    sx_reach("order");
}

// archive paths
SX_ENTRY(paths)
{
    std::string dir = sx_param(0) ? "/q/id1/" : "id1/";
    put_archive((dir + "pak0.pak").c_str(), false, {{"maps/e1m1.bsp", any_bytes(2, "data")}, {"m", any_bytes(1, "data")}}, 0, 1);
    auto c = fs::splitArchivePath(dir + "pak0.pak/maps/e1m1.bsp");
    sx_assert(c && c.archive == fs::path(dir + "pak0.pak") && c.filename == fs::path("maps/e1m1.bsp"), "a path into an archive is split there");
    sx_assert(!fs::splitArchivePath(dir + "pak1.pak/maps/e1m1.bsp"), "a path that leads to no archive is not split");
    sx_assert(fs::resolveArchivePath(dir + "pak0.pak/maps/e1m1.bsp") == fs::path(dir + "maps/e1m1.bsp"), "a file in an archive has its place next to it");
    sx_assert(fs::resolveArchivePath(dir + "maps/e1m1.bsp") == fs::path(dir + "maps/e1m1.bsp"), "any other path is its own place");
    auto d = fs::load(fs::path(dir + "pak0.pak/m"));
    sx_assert(d && d->size() == 1, "a file is read through the archive's path");
    // another game's archive of the same name is another archive
    put_archive("rogue/pak0.pak", false, {{"m", any_bytes(2, "data")}, {"n", any_bytes(3, "data")}}, 1, 0);
    auto a = fs::addArchive(dir + "pak0.pak"), b = fs::addArchive("rogue/pak0.pak");
    sx_assert(a && b && a != b, "archives are told apart by their whole path");
    auto m = fs::load(fs::path("m")), n = fs::load(fs::path("n"));
    sx_assert(m && m->size() == 2 && n && n->size() == 3 && fs::load(fs::path("maps/e1m1.bsp")), "the archive added last comes first, the others are still searched");
    sx_assert(DefaultExtension(dir + "x", "bsp") == fs::path(dir + "x.bsp") && DefaultExtension(dir + "x.map", "bsp") == fs::path(dir + "x.map"), "extensions are added where there is none");
    sx_reach("paths");
}

// natural order: numbers by value, one order for all names
static std::string text(int n)
{
    std::string s(n, ' ');
    for (auto &c : s) {
        c = sx_any<char>("letter");
        sx_assume(((c >= '0') & (c <= '2')) | ((c == 'a') | (c == 'B')));
    }
    return s;
}
SX_ENTRY(natural)
{
    bool cs = sx_param(3);
    std::string a = text((int)sx_param(0)), b = text((int)sx_param(1)), c = text((int)sx_param(2));
    bool ab = stlnatstrlt(a, b, cs), ba = stlnatstrlt(b, a, cs);
    sx_assert(!(ab && ba), "of two names one comes first");
    sx_assert((!ab && !ba) == (a == b), "different names are told apart");
    if (ab && stlnatstrlt(b, c, cs)) sx_assert(stlnatstrlt(a, c, cs), "the order is one of all names");
    sx_reach("natural");
}
SX_ENTRY(numbers)
{
    uint32_t x = sx_range<uint32_t>(0, (uint32_t)sx_param(0), "x"), y = sx_range<uint32_t>(0, (uint32_t)sx_param(0), "y");
    auto name = [](uint32_t v) {
        std::string s = "pak";
        if (v >= 100) s += (char)('0' + v / 100);
        if (v >= 10) s += (char)('0' + v / 10 % 10);
        s += (char)('0' + v % 10);
        return s + ".pak";
    };
    sx_assert(natural_case_insensitive_less()(name(x), name(y)) == (x < y), "numbers in names are ordered by value");
    sx_reach("numbers");
}
// letter case
SX_ENTRY(letters)
{
    int n = (int)sx_param(0), m = (int)sx_param(1);
    std::string a(n, ' '), b(m, ' ');
    for (auto *s : {&a, &b})
        for (auto &c : *s) {
            c = sx_any<char>("letter");
            sx_assume((c > 0));
        }
    bool eq = iequal(a, b);
    sx_assert(string_iequals(a, b) == eq, "strings are equal when they differ only in letter case");
    sx_assert(case_insensitive_equal()(a, b) == eq, "so are file names");
    if (eq) sx_assert(case_insensitive_hash()(a) == case_insensitive_hash()(b), "equal names have one hash");
    sx_assert((Q_strcasecmp(a, b) == 0) == eq, "comparison agrees");
    bool less = case_insensitive_less()(a, b), more = case_insensitive_less()(b, a);
    sx_assert(less + more + eq == 1, "and so does order");
    size_t k = sx_param(2);
    if (k <= a.size() && k <= b.size()) sx_assert((Q_strncasecmp(a, b, k) == 0) == iequal(a.substr(0, k), b.substr(0, k)), "beginnings are compared alike");
    bool inside = false;
    for (size_t i = 0; i + m <= (size_t)n; i++) inside |= iequal(a.substr(i, m), b);
    if (m) sx_assert(string_icontains(a, b) == inside, "a part is found in any letter case");
    sx_reach("letters");
}
