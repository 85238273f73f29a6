// Whole BSP files: what is written is laid out as the format says and loads back as it was; what is damaged is
// refused or loads as exactly the bytes that are there; a failed write is reported.
#include "sx.h"
#include "memfs.h"
#include <common/bspfile.hh>
#include <common/bspxfile.hh>
#include <common/cmdlib.hh>
#include <cstring>
#include <map>

static const bspversion_t *versions[] = {&bspver_q1, &bspver_h2, &bspver_hl, &bspver_bsp2, &bspver_h2bsp2, &bspver_bsp2rmq, &bspver_h2bsp2rmq, &bspver_q2, &bspver_qbism};
static bool is_q2(int v) { return v >= 7; }
static bool is_h2(int v) { return v == 1 || v == 4 || v == 6; }
static int elem(int v, int lump) { return (int)versions[v]->lumps.begin()[lump].size; }

static bool plain = false; // contents are fixed
template<class T> static void fill(std::vector<T> &v, int n)
{
    v.resize(n);
    if (n && plain)
        for (size_t i = 0; i < n * sizeof(T); i++) ((uint8_t *)v.data())[i] = (uint8_t)(i * 37 + n);
    else if (n) sx_symbolic(v.data(), n * sizeof(T), "lump");
}
template<class T> static bool same(const std::vector<T> &a, const std::vector<T> &b)
{
    if (a.size() != b.size()) return false;
    return a.empty() || memcmp((const void *)a.data(), (const void *)b.data(), a.size() * sizeof(T)) == 0;
}
static void text(std::string &s, int n)
{
    s.resize(n);
    for (auto &c : s) {
        if (plain) {
            c = 'e';
            continue;
        }
        c = sx_any<char>("entities");
        sx_assume(c != 0);
    }
}
static int off(int base, int i) { return base ? (base + i * 3) % 5 : 0; }
template<class T> static void fill_common(T &b, int n)
{
    fill(b.dplanes, n);
    fill(b.dleafs, off(n, 1) + 1);
    fill(b.dvertexes, off(n, 2));
    fill(b.dnodes, n);
    fill(b.texinfo, off(n, 3));
    fill(b.dfaces, off(n, 4) + 1);
    fill(b.dsurfedges, n + 1);
    fill(b.dedges, n);
    fill(b.dlightdata, n * 3 + 1);
    text(b.dentdata, n * 2 + 3);
}
template<class T> static bool same_common(const T &a, const T &b)
{
    return same(a.dplanes, b.dplanes) && same(a.dleafs, b.dleafs) && same(a.dvertexes, b.dvertexes) && same(a.dnodes, b.dnodes) &&
           same(a.texinfo, b.texinfo) && same(a.dfaces, b.dfaces) && same(a.dsurfedges, b.dsurfedges) && same(a.dedges, b.dedges) &&
           same(a.dlightdata, b.dlightdata) && a.dentdata == b.dentdata;
}
// textures: name and sizes are the head of the data
static void fill_tex(dmiptexlump_t &t, int n)
{
    for (int i = 0; i < n; i++) {
        miptex_t &m = t.textures.emplace_back();
        if (i % 3 == 1) {
            m.null_texture = true;
            continue;
        }
        m.data.resize(40 + i * 3);
        if (plain) {
            for (size_t k = 0; k < m.data.size(); k++) m.data[k] = (uint8_t)(k * 7 + i);
            continue;
        }
        sx_symbolic(m.data.data(), m.data.size(), "texture");
        if (i % 2 == 0)
            for (int k = 0; k < 16; k++) sx_assume(m.data[k] != 0); // a name without terminator
    }
}
static uint32_t le(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static void same_tex(const dmiptexlump_t &a, const dmiptexlump_t &b)
{
    sx_assert(a.textures.size() == b.textures.size(), "number of textures");
    for (size_t i = 0; i < a.textures.size(); i++) {
        const miptex_t &x = a.textures[i], &y = b.textures[i];
        sx_assert(x.null_texture == y.null_texture, "missing texture");
        if (x.null_texture) continue;
        sx_assert(y.data.size() >= x.data.size() && y.data.size() < x.data.size() + 4, "texture size");
        sx_assert(!memcmp(y.data.data(), x.data.data(), x.data.size()), "texture data");
        for (size_t k = x.data.size(); k < y.data.size(); k++) sx_assert(y.data[k] == 0, "texture padding");
        sx_assert(y.width == le(&x.data[16]) && y.height == le(&x.data[20]), "texture dimensions");
        for (int k = 0; k < 4; k++) sx_assert(y.offsets[k] == le(&x.data[24 + 4 * k]), "texture offsets");
        sx_assert(y.name.size() <= 16 && !memcmp(y.name.data(), x.data.data(), y.name.size()), "texture name");
        sx_assert(y.name.size() == 16 || x.data[y.name.size()] == 0, "texture name is cut short");
    }
}
template<class T> static void fill_q1(T &b, int n, bool h2)
{
    fill_common(b, n);
    fill(b.dclipnodes, off(n, 2));
    fill(b.dmarksurfaces, n);
    fill(b.dvisdata, n * 2 + 1);
    fill_tex(b.dtex, n + 1);
    if (h2) fill(b.dmodels.template emplace<dmodelh2_vector>(), n + 1);
    else fill(b.dmodels.template emplace<dmodelq1_vector>(), n + 1);
}
template<class T> static void cmp_q1(const T &a, const T &b)
{
    sx_assert(same_common(a, b) && same(a.dclipnodes, b.dclipnodes) && same(a.dmarksurfaces, b.dmarksurfaces) && same(a.dvisdata, b.dvisdata),
        "a lump is not what was written");
    same_tex(a.dtex, b.dtex);
    sx_assert(a.dmodels.index() == b.dmodels.index(), "kind of models");
    if (auto *m = std::get_if<dmodelh2_vector>(&a.dmodels)) sx_assert(same(*m, std::get<dmodelh2_vector>(b.dmodels)), "models");
    else sx_assert(same(std::get<dmodelq1_vector>(a.dmodels), std::get<dmodelq1_vector>(b.dmodels)), "models");
}
template<class T> static void fill_q2(T &b, int n)
{
    fill_common(b, n);
    fill(b.dmodels, n + 1);
    fill(b.dleaffaces, n);
    fill(b.dleafbrushes, off(n, 1));
    fill(b.dbrushes, n);
    fill(b.dbrushsides, off(n, 3));
    fill(b.dareas, n + 1);
    fill(b.dareaportals, off(n, 4));
    if (n != 1) {
        fill(b.dvis.bit_offsets, n + 1);
        fill(b.dvis.bits, n * 3 + 2);
    }
}
template<class T> static void cmp_q2(const T &a, const T &b)
{
    sx_assert(same_common(a, b) && same(a.dmodels, b.dmodels) && same(a.dleaffaces, b.dleaffaces) && same(a.dleafbrushes, b.dleafbrushes) &&
                  same(a.dbrushes, b.dbrushes) && same(a.dbrushsides, b.dbrushsides) && same(a.dareas, b.dareas) && same(a.dareaportals, b.dareaportals),
        "a lump is not what was written");
    sx_assert(same(a.dvis.bit_offsets, b.dvis.bit_offsets) && same(a.dvis.bits, b.dvis.bits), "visibility");
}
static void make(bspdata_t &d, int v, int n)
{
    d.version = versions[v];
    switch (v) {
        case 0: case 1: case 2: fill_q1(d.bsp.emplace<bsp29_t>(), n, is_h2(v)); break;
        case 3: case 4: fill_q1(d.bsp.emplace<bsp2_t>(), n, is_h2(v)); break;
        case 5: case 6: fill_q1(d.bsp.emplace<bsp2rmq_t>(), n, is_h2(v)); break;
        case 7: fill_q2(d.bsp.emplace<q2bsp_t>(), n); break;
        case 8: fill_q2(d.bsp.emplace<q2bsp_qbism_t>(), n); break;
    }
}
static void compare(const bspdata_t &a, const bspdata_t &b)
{
    sx_assert(a.version == b.version, "loaded as another version");
    sx_assert(a.bsp.index() == b.bsp.index(), "loaded as another structure");
    if (auto *x = std::get_if<bsp29_t>(&a.bsp)) cmp_q1(*x, std::get<bsp29_t>(b.bsp));
    else if (auto *x = std::get_if<bsp2_t>(&a.bsp)) cmp_q1(*x, std::get<bsp2_t>(b.bsp));
    else if (auto *x = std::get_if<bsp2rmq_t>(&a.bsp)) cmp_q1(*x, std::get<bsp2rmq_t>(b.bsp));
    else if (auto *x = std::get_if<q2bsp_t>(&a.bsp)) cmp_q2(*x, std::get<q2bsp_t>(b.bsp));
    else if (auto *x = std::get_if<q2bsp_qbism_t>(&a.bsp)) cmp_q2(*x, std::get<q2bsp_qbism_t>(b.bsp));
    else sx_fail("nothing loaded");
}
static bool write_file(bspdata_t &d)
{
    try {
        WriteBSPFile("m.bsp", &d);
        return true;
    } catch (const std::exception &) {
        return false;
    }
}
static bool load_file(bspdata_t &d)
{
    fs::path p = "m.bsp";
    try {
        LoadBSPFile(p, &d);
        return true;
    } catch (const std::exception &) {
        return false;
    }
}
struct span
{
    size_t ofs, len;
};
// the file's own structure, as the engines read it
static size_t check_layout(int v, const std::vector<char> &file, const bspdata_t &d)
{
    const uint8_t *f = (const uint8_t *)file.data();
    const int head = is_q2(v) ? 8 : 4, lumps = is_q2(v) ? 19 : 15;
    sx_assert(file.size() >= (size_t)head + lumps * 8, "no header");
    sx_assert((int)le(f) == versions[v]->ident && (!is_q2(v) || (int)le(f + 4) == *versions[v]->version), "identification");
    std::vector<span> used{{0, (size_t)head + lumps * 8}};
    size_t end = 0;
    for (int i = 0; i < lumps; i++) {
        const size_t o = le(f + head + i * 8), l = le(f + head + i * 8 + 4);
        if (is_q2(v) && i == 16) { // never used
            sx_assert(l == 0, "the pop lump is in use");
            continue;
        }
        sx_assert(o <= file.size() && l <= file.size() - o, "a lump is outside the file");
        sx_assert(o % 4 == 0, "a lump is not aligned");
        sx_assert(l % elem(v, i) == 0, "a lump is not a whole number of records");
        for (auto &u : used) sx_assert(!l || !u.len || o >= u.ofs + u.len || u.ofs >= o + l, "lumps overlap");
        used.push_back({o, l});
        end = std::max(end, o + l);
    }
    return end + 3 & ~(size_t)3;
}
SX_ENTRY(roundtrip)
{
    const int v = (int)sx_param(0), n = (int)sx_param(1), nx = (int)sx_param(2);
    bspdata_t d{};
    make(d, v, n);
    static const char *names[] = {"RGBLIGHTING", "A_LUMP_NAME_OF_TWENTY3_C", "LMSHIFT"}; // the second is 24 long
    std::vector<std::vector<uint8_t>> xs;
    for (int i = 0; i < nx; i++) {
        std::vector<uint8_t> x;
        fill(x, i * 5 % 8);
        xs.push_back(x);
        d.bspx.transfer(names[i], x);
    }
    memfs::write_behind = sx_param(3);
    const bspdata_t copy = d;
    sx_assert(write_file(d), "writing failed");
    auto &file = memfs::find("m.bsp")->data;
    const size_t end = check_layout(v, file, d);
    const uint8_t *f = (const uint8_t *)file.data();
    if (nx) {
        sx_assert(file.size() >= end + 8 && !memcmp(f + end, "BSPX", 4) && (int)le(f + end + 4) == nx, "no extension header at the end of the lumps");
        for (int i = 0; i < nx; i++) {
            const size_t o = le(f + end + 8 + 32 * i + 24), l = le(f + end + 8 + 32 * i + 28);
            sx_assert(o >= end + 8 + 32 * nx && o % 4 == 0 && o <= file.size() && l <= file.size() - o, "an extension lump is outside the file");
            sx_assert(f[end + 8 + 32 * i + 23] == 0, "an extension name is not terminated");
        }
    } else
        sx_assert(file.size() == end, "something follows the lumps");
    bspdata_t e{};
    sx_assert(load_file(e), "loading what was written failed");
    compare(copy, e);
    sx_assert(e.bspx.entries.size() == (size_t)nx, "number of extension lumps");
    for (int i = 0; i < nx; i++) {
        auto it = e.bspx.entries.find(std::string(names[i]).substr(0, 23));
        sx_assert(it != e.bspx.entries.end() && same(it->second, xs[i]), "an extension lump is not what was written");
    }
    sx_reach("roundtrip");
}
// a full disk, at any point
SX_ENTRY(diskfull)
{
    sx_qassert_ends = 2;
    plain = true;
    const int v = (int)sx_param(0), n = (int)sx_param(1);
    bspdata_t d{};
    make(d, v, n);
    std::vector<uint8_t> x(5, 1);
    if (sx_param(3)) d.bspx.transfer("LMSHIFT", x);
    bspdata_t d2 = d;
    sx_assert(write_file(d), "writing failed");
    const int head = is_q2(v) ? 8 + 19 * 8 : 4 + 15 * 8;
    const int size = (int)memfs::find("m.bsp")->data.size() + head + (sx_param(3) ? 32 : 0);
    memfs::create("m.bsp");
    memfs::write_behind = sx_param(2);
    const int room = (int)sx_concretize(sx_range<int>(0, size, "room"));
    memfs::write_budget = room;
    const bool ok = write_file(d2);
    memfs::write_budget = -1;
    sx_assert(ok == (room == size), ok ? "a failed write is not reported" : "a good write is reported as failed");
    sx_reach(ok ? "fits" : "full");
}
static void put32(std::vector<char> &f, size_t at, uint32_t x)
{
    for (int i = 0; i < 4; i++) f[at + i] = (char)(x >> (8 * i));
}
template<class T> static bool is(const std::vector<T> &v, const std::vector<char> &f, size_t o, size_t l)
{
    if (v.size() * sizeof(T) != l) return false;
    if (!l) return true;
    return o <= f.size() && l <= f.size() - o && !memcmp((const void *)v.data(), f.data() + o, l);
}
// any file in which lump i is [o, o + l): the vector has these bytes
template<class T> static bool lump_is(const T &b, int v, int i, const std::vector<char> &f, size_t o, size_t l)
{
    if constexpr (std::is_base_of_v<q1bsp_tag_t, T>) {
        switch (i) {
            case LUMP_ENTITIES: return b.dentdata.size() <= l && b.dentdata.size() + 1 >= l && !memcmp(b.dentdata.data(), f.data() + o, b.dentdata.size());
            case LUMP_PLANES: return is(b.dplanes, f, o, l);
            case LUMP_VERTEXES: return is(b.dvertexes, f, o, l);
            case LUMP_VISIBILITY: return is(b.dvisdata, f, o, l);
            case LUMP_NODES: return is(b.dnodes, f, o, l);
            case LUMP_FACES: return is(b.dfaces, f, o, l);
            case LUMP_LIGHTING: return is(b.dlightdata, f, o, l);
            case LUMP_CLIPNODES: return is(b.dclipnodes, f, o, l);
            case LUMP_LEAFS: return is(b.dleafs, f, o, l);
            case LUMP_MARKSURFACES: return is(b.dmarksurfaces, f, o, l);
            case LUMP_EDGES: return is(b.dedges, f, o, l);
            case LUMP_SURFEDGES: return is(b.dsurfedges, f, o, l);
            case LUMP_MODELS: return is_h2(v) ? is(std::get<dmodelh2_vector>(b.dmodels), f, o, l) : is(std::get<dmodelq1_vector>(b.dmodels), f, o, l);
        }
    } else {
        switch (i) {
            case Q2_LUMP_PLANES: return is(b.dplanes, f, o, l);
            case Q2_LUMP_VERTEXES: return is(b.dvertexes, f, o, l);
            case Q2_LUMP_NODES: return is(b.dnodes, f, o, l);
            case Q2_LUMP_FACES: return is(b.dfaces, f, o, l);
            case Q2_LUMP_LIGHTING: return is(b.dlightdata, f, o, l);
            case Q2_LUMP_LEAFS: return is(b.dleafs, f, o, l);
            case Q2_LUMP_LEAFFACES: return is(b.dleaffaces, f, o, l);
            case Q2_LUMP_LEAFBRUSHES: return is(b.dleafbrushes, f, o, l);
            case Q2_LUMP_EDGES: return is(b.dedges, f, o, l);
            case Q2_LUMP_SURFEDGES: return is(b.dsurfedges, f, o, l);
            case Q2_LUMP_MODELS: return is(b.dmodels, f, o, l);
            case Q2_LUMP_BRUSHES: return is(b.dbrushes, f, o, l);
            case Q2_LUMP_BRUSHSIDES: return is(b.dbrushsides, f, o, l);
            case Q2_LUMP_AREAS: return is(b.dareas, f, o, l);
            case Q2_LUMP_AREAPORTALS: return is(b.dareaportals, f, o, l);
        }
    }
    return true;
}
static bool lump_ok(const bspdata_t &d, int v, int i, const std::vector<char> &f, size_t o, size_t l)
{
    if (auto *x = std::get_if<bsp29_t>(&d.bsp)) return lump_is(*x, v, i, f, o, l);
    if (auto *x = std::get_if<bsp2_t>(&d.bsp)) return lump_is(*x, v, i, f, o, l);
    if (auto *x = std::get_if<bsp2rmq_t>(&d.bsp)) return lump_is(*x, v, i, f, o, l);
    if (auto *x = std::get_if<q2bsp_t>(&d.bsp)) return lump_is(*x, v, i, f, o, l);
    if (auto *x = std::get_if<q2bsp_qbism_t>(&d.bsp)) return lump_is(*x, v, i, f, o, l);
    return false;
}
// the map's data as another tool might have written it: other order, gaps, empty lumps anywhere
SX_ENTRY(foreign)
{
    const int v = (int)sx_param(0), order = (int)sx_param(1);
    const int head = is_q2(v) ? 8 : 4, lumps = is_q2(v) ? 19 : 15;
    std::vector<char> f(head + lumps * 8);
    put32(f, 0, versions[v]->ident);
    if (is_q2(v)) put32(f, 4, *versions[v]->version);
    std::vector<span> at(lumps);
    for (int k = 0; k < lumps; k++) {
        const int i = order ? lumps - 1 - k : k;
        int l = elem(v, i) * ((i + order) % 3);
        if (i == 2 && !is_q2(v)) l = 0; // no textures (see the other entries)
        if (i == 3 && is_q2(v)) l = 0;
        if (!is_q2(v) && i == LUMP_MODELS) l = elem(v, i);
        at[i] = {l ? f.size() : (order ? 0 : 12345678), (size_t)l};
        std::vector<char> data;
        fill(data, l);
        f.insert(f.end(), data.begin(), data.end());
        f.resize(f.size() + (i * order) % 4);
    }
    for (int i = 0; i < lumps; i++) {
        put32(f, head + i * 8, (uint32_t)at[i].ofs);
        put32(f, head + i * 8 + 4, (uint32_t)at[i].len);
    }
    memfs::put("m.bsp", f.data(), f.size());
    bspdata_t d{};
    sx_assert(load_file(d), "a valid file is refused");
    sx_assert(d.version == versions[v], "loaded as another version");
    for (int i = 0; i < lumps; i++) sx_assert(lump_ok(d, v, i, f, at[i].ofs, at[i].len), "a lump is not what is in the file");
    sx_assert(d.bspx.entries.empty(), "extension lumps that are not there");
    sx_reach("foreign");
}
// Quake and Hexen II maps with as many models as make the lump fit both
SX_ENTRY(ambiguous)
{
    const bool h2 = sx_param(0);
    plain = true;
    bspdata_t d{};
    make(d, h2 ? 1 : 0, 3);
    bsp29_t &b = std::get<bsp29_t>(d.bsp);
    plain = false;
    const int faces = (int)b.dfaces.size(), nodes = (int)b.dnodes.size(), leafs = (int)b.dleafs.size(), clips = (int)b.dclipnodes.size();
    auto refs = [&](auto &m) {
        sx_assume((m.visleafs >= 0) & (m.visleafs <= leafs) & (m.firstface >= 0) & (m.numfaces >= 0) & (m.firstface <= faces) & (m.numfaces <= faces));
        sx_assume(m.firstface + m.numfaces <= faces);
        for (size_t k = 0; k < m.headnode.size(); k++) sx_assume(m.headnode[k] < (k ? clips : nodes));
    };
    if (h2) {
        auto &ms = std::get<dmodelh2_vector>(b.dmodels);
        fill(ms, 4);
        for (auto &m : ms) refs(m);
    } else {
        auto &ms = std::get<dmodelq1_vector>(b.dmodels);
        fill(ms, 5);
        for (auto &m : ms) {
            refs(m);
            sx_assume((m.mins[0] >= -4096) & (m.mins[1] >= -4096) & (m.mins[2] >= -4096) & (m.maxs[0] <= 4096) & (m.maxs[1] <= 4096) & (m.maxs[2] <= 4096));
            sx_assume((m.mins[0] + 1 <= m.maxs[0]) & (m.mins[1] + 1 <= m.maxs[1]) & (m.mins[2] + 1 <= m.maxs[2]));
        }
        // boxes of the world and of the first door that do not start at the origin
        sx_assume((ms[1].mins[1] <= -1) | (ms[1].mins[1] >= 1));
    }
    const bspdata_t copy = d;
    sx_assert(write_file(d), "writing failed");
    bspdata_t e{};
    sx_assert(load_file(e), "loading what was written failed");
    compare(copy, e);
    sx_reach("told");
}
// a damaged file is refused, or what loads is what is in the file
SX_ENTRY(damaged)
{
    sx_qassert_ends = 2;
    plain = true;
    const int v = (int)sx_param(0), mode = (int)sx_param(1), which = (int)sx_param(2);
    const int head = is_q2(v) ? 8 : 4, lumps = is_q2(v) ? 19 : 15;
    bspdata_t o{};
    make(o, v, sx_param(3) ? (int)sx_param(3) : 2);
    std::vector<uint8_t> x{1, 2, 3, 4, 5};
    o.bspx.transfer("LMSHIFT", x);
    o.bspx.transfer("NEXT", x);
    sx_assert(write_file(o), "writing failed");
    std::vector<char> f = memfs::find("m.bsp")->data;
    std::vector<span> at(lumps);
    for (int i = 0; i < lumps; i++) at[i] = {le((uint8_t *)&f[head + i * 8]), le((uint8_t *)&f[head + i * 8 + 4])};
    size_t end = 0;
    for (auto &a : at) end = std::max(end, a.ofs + a.len);
    end = end + 3 & ~(size_t)3;
    bool must_fail = false;
    if (mode == 0) { // cut short anywhere
        const size_t keep = sx_concretize(sx_range<int>(0, (int)f.size() - 1, "length"));
        must_fail = keep < end - 3;
        f.resize(keep);
    } else if (mode == 1) { // a lump's place
        const size_t old = at[which].len;
        uint32_t a = sx_any<uint32_t>("offset"), b = (uint32_t)old;
        sx_assume(a > f.size() - old);
        put32(f, head + which * 8, a);
        must_fail = old != 0;
        at[which].ofs = a;
    } else if (mode == 2) { // a lump's size
        uint32_t a = sx_any<uint32_t>("size");
        const uint32_t room = (uint32_t)(f.size() - at[which].ofs);
        const bool big = a > room;
        if (!big) a = (uint32_t)sx_concretize(a);
        put32(f, head + which * 8 + 4, a);
        must_fail = big || (a % elem(v, which) && !(!is_q2(v) && which == LUMP_MODELS && a % 80 == 0));
        at[which].len = a;
    } else if (mode == 3) { // the structure within the texture or visibility lump
        const int lump = is_q2(v) ? (int)Q2_LUMP_VISIBILITY : (int)LUMP_TEXTURES;
        sx_symbolic(&f[at[lump].ofs + which], 4, "inner");
    } else if (mode == 4) { // extension header or directory
        sx_symbolic(&f[end + which], 4, "bspx");
    }
    memfs::put("m.bsp", f.data(), f.size());
    bspdata_t d{};
    if (!load_file(d)) {
        if (mode == 4) sx_assert(0, "damaged extensions make the map unusable");
        sx_reach("refused");
        return;
    }
    sx_assert(!must_fail, "data outside the file was loaded");
    sx_assert(d.version == versions[v] || mode == 1 || mode == 2, "loaded as another version");
    if (d.version == versions[v])
        for (int i = 0; i < lumps; i++) sx_assert(lump_ok(d, v, i, f, at[i].ofs, at[i].len), "a lump is not what is in the file");
    // the extension lumps: the directory's entries up to the first that is not inside the file
    std::map<std::string, span> want;
    end = 0;
    for (int i = 0; i < lumps; i++) end = std::max(end, at[i].ofs + at[i].len);
    end = end + 3 & ~(size_t)3;
    const uint8_t *u = (const uint8_t *)f.data();
    if (end + 8 <= f.size() && u[end] == 'B' && u[end + 1] == 'S' && u[end + 2] == 'P' && u[end + 3] == 'X') {
        const size_t num = le(u + end + 4);
        for (size_t i = 0; i < num && end + 8 + 32 * (i + 1) <= f.size(); i++) {
            const uint8_t *x = u + end + 8 + 32 * i;
            const span p{le(x + 24), le(x + 28)};
            if (p.ofs + p.len > f.size()) break;
            std::string name;
            for (int k = 0; k < 24 && x[k]; k++) name += (char)x[k];
            want[name] = p;
        }
    }
    sx_assert(want.size() == d.bspx.entries.size(), "number of extension lumps");
    for (auto &[name, w] : want) {
        auto it = d.bspx.entries.find(name);
        sx_assert(it != d.bspx.entries.end() && it->second.size() == w.len, "an extension lump is missing");
        bool eq = true;
        for (size_t k = 0; k < it->second.size(); k++) eq &= it->second[k] == u[w.ofs + k];
        sx_assert(eq, "an extension lump is not what is in the file");
    }
    sx_reach("loaded");
}
