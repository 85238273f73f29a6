// The light grid: what is computed at every grid point is what a reader of LIGHTGRID_OCTREE finds there.
#include <fstream>
#include "sx.h"
#define CalcLightgridAtPoint stand_in_light
#define FixLightOnFace stand_in_fix
#define Light_PointInWorld stand_in_occluded
#define WriteDebugPortals stand_in_debug
#define GetEntdicts stand_in_entities
#include <light/lightgrid.cc>
#undef CalcLightgridAtPoint
#undef FixLightOnFace
#undef Light_PointInWorld
#undef WriteDebugPortals
#undef GetEntdicts
#include <light/light.cc>
#include <light/write.cc>
#include <cstring>

static std::vector<entdict_t> entities;
const std::vector<entdict_t> &stand_in_entities() { return entities; }
void stand_in_debug(std::vector<polylib::winding_t> &, fs::path) { }
void stand_in_debug(const std::vector<polylib::winding_t> &, fs::path) { }

// the plan of a grid
static int size[3];
static qvec3f mins, dist;
static std::vector<uint8_t> state; // 0 open, 1 in a wall, 2 in a wall but close to the open
static std::vector<lightgrid_samples_t> light;
static std::vector<int> asked;
static const float nudge = 0.5f;

static int cell_of(const qvec3f &p, bool nudged)
{
    int i[3];
    for (int k = 0; k < 3; k++) {
        float f = (p[k] - (nudged ? nudge : 0) - mins[k]) / dist[k];
        i[k] = (int)f;
        sx_assert((float)i[k] == f && i[k] >= 0 && i[k] < size[k], "light is computed somewhere that is no grid point");
    }
    return i[0] + size[0] * (i[1] + size[1] * i[2]);
}
static bool is_nudged(const qvec3f &p)
{
    float f = (p[0] - mins[0]) / dist[0];
    return (float)(int)f != f;
}
bool stand_in_occluded(const mbsp_t *, const qvec3d &p)
{
    return state[cell_of(qvec3f(p), false)] != 0;
}
std::tuple<qvec3f, bool> stand_in_fix(const mbsp_t *, const qvec3f &p, bool, float)
{
    int c = cell_of(p, false);
    if (state[c] == 2) return {p + qvec3f(nudge, nudge, nudge), true};
    return {p, false};
}
lightgrid_samples_t stand_in_light(const mbsp_t *, const qvec3f &p)
{
    bool n = is_nudged(p);
    int c = cell_of(p, n);
    sx_assert(n == (state[c] == 2) && state[c] != 1, "light is computed inside a wall");
    asked[c]++;
    return light[c];
}
struct reader
{
    const uint8_t *p, *end;
    uint8_t u8()
    {
        sx_assert(p < end, "the lump ends early");
        return *p++;
    }
    uint32_t u32()
    {
        uint32_t v = 0;
        for (int i = 0; i < 4; i++) v |= (uint32_t)u8() << (8 * i);
        return v;
    }
    float f32()
    {
        uint32_t v = u32();
        float f;
        memcpy(&f, &v, 4);
        return f;
    }
};
static mbsp_t world(const qvec3f &lo, const qvec3f &hi)
{
    // a world of two faces that reaches from lo to hi
    mbsp_t b;
    b.loadversion = &bspver_q2;
    b.dmodels.resize(1);
    b.dmodels[0].firstface = 0;
    b.dmodels[0].numfaces = 2;
    b.dvertexes = {lo, {hi[0], lo[1], lo[2]}, {hi[0], hi[1], lo[2]}, {lo[0], lo[1], hi[2]}, {lo[0], hi[1], hi[2]}, {lo[0], hi[1], lo[2]}};
    b.dedges.resize(7);
    for (int f = 0; f < 2; f++)
        for (int i = 0; i < 3; i++) {
            auto &e = b.dedges[1 + 3 * f + i];
            e[0] = 3 * f + i;
            e[1] = 3 * f + (i + 1) % 3;
            b.dsurfedges.push_back(1 + 3 * f + i);
        }
    b.dfaces.resize(2);
    for (int f = 0; f < 2; f++) {
        b.dfaces[f].firstedge = 3 * f;
        b.dfaces[f].numedges = 3;
    }
    return b;
}
static std::vector<uint8_t> run(mbsp_t &&b)
{
    light_options.lightgrid.set_value(true, settings::source::COMMANDLINE);
    light_options.lightgrid_dist.set_value(dist, settings::source::COMMANDLINE);
    light_options.sourceMap = "map.bsp";
    bspdata_t d;
    d.bsp = std::move(b);
    LightGrid(&d);
    sx_assert(d.bspx.entries.size() == 1 && d.bspx.entries.begin()->first == "LIGHTGRID_OCTREE", "no LIGHTGRID_OCTREE lump");
    return d.bspx.entries.begin()->second;
}
static int clamp_round(float f)
{
    // round half away from zero
    if (!(f > 0)) return 0;
    if (f >= 254.5f) return 255;
    int i = (int)f;
    return f - (float)i >= 0.5f ? i + 1 : i;
}
// reads the lump and compares every point
static void check(const std::vector<uint8_t> &lump)
{
    reader r{lump.data(), lump.data() + lump.size()};
    for (int k = 0; k < 3; k++) sx_assert(r.f32() == dist[k], "distance");
    for (int k = 0; k < 3; k++) sx_assert((int)r.u32() == size[k], "size of the grid");
    for (int k = 0; k < 3; k++) sx_assert(r.f32() == mins[k], "origin of the grid");
    int styles = r.u8(), most = 0;
    uint32_t root = r.u32();
    struct node { int div[3]; uint32_t child[8]; };
    struct leaf { int mins[3], size[3]; const uint8_t *data; };
    std::vector<node> nodes(r.u32());
    for (auto &n : nodes) {
        for (auto &x : n.div) x = (int)r.u32();
        for (auto &c : n.child) c = r.u32();
    }
    std::vector<leaf> leafs(r.u32());
    std::vector<std::vector<const uint8_t *>> cells(leafs.size());
    for (size_t l = 0; l < leafs.size(); l++) {
        auto &f = leafs[l];
        for (auto &x : f.mins) x = (int)r.u32();
        for (auto &x : f.size) x = (int)r.u32();
        for (int k = 0; k < 3; k++) sx_assert(f.size[k] > 0 && f.mins[k] >= 0 && f.mins[k] + f.size[k] <= size[k], "a leaf outside the grid");
        int n = f.size[0] * f.size[1] * f.size[2];
        for (int i = 0; i < n; i++) {
            cells[l].push_back(r.p);
            int used = r.u8();
            if (used == 0xff) continue;
            sx_assert(used <= 4, "more styles than there can be");
            for (int s = 0; s < 4 * used; s++) r.u8();
        }
    }
    sx_assert(r.p == r.end, "the lump has more than its leafs");
    for (int z = 0; z < size[2]; z++)
        for (int y = 0; y < size[1]; y++)
            for (int x = 0; x < size[0]; x++) {
                int p[3] = {x, y, z}, c = x + size[0] * (y + size[1] * z);
                uint32_t n = root;
                int depth = 0;
                while (!(n & 0xc0000000u)) {
                    sx_assert(n < nodes.size() && depth++ < 32, "a node that does not exist");
                    auto &d = nodes[n].div;
                    n = nodes[n].child[4 * (x >= d[0]) + 2 * (y >= d[1]) + (z >= d[2])];
                }
                const uint8_t *at = nullptr;
                if (!(n & 0x40000000u)) {
                    n &= 0x3fffffffu;
                    sx_assert(n < leafs.size(), "a leaf that does not exist");
                    auto &f = leafs[n];
                    for (int k = 0; k < 3; k++) sx_assert(p[k] >= f.mins[k] && p[k] < f.mins[k] + f.size[k], "a grid point is not in its leaf");
                    at = cells[n][(p[0] - f.mins[0]) + f.size[0] * ((p[1] - f.mins[1]) + f.size[1] * (p[2] - f.mins[2]))];
                    if (*at == 0xff) at = nullptr;
                }
                sx_assert((at == nullptr) == (state[c] == 1), "a grid point is occluded exactly if it is in a wall with no open point near");
                sx_assert(asked[c] == (state[c] != 1), "light is computed once at every open point");
                if (!at) continue;
                int used = 0;
                while (used < 4 && light[c].samples_by_style[used].used) used++;
                if (used > most) most = used;
                sx_assert(*at == used, "number of styles");
                for (int s = 0; s < used; s++) {
                    auto &w = light[c].samples_by_style[s];
                    sx_assert(at[1 + 4 * s] == w.style, "style");
                    for (int k = 0; k < 3; k++) sx_assert(at[2 + 4 * s + k] == clamp_round(w.color[k]), "colour");
                }
            }
    sx_assert(styles == most, "the most styles of any point");
}
static void plan(int sx, int sy, int sz)
{
    size[0] = sx, size[1] = sy, size[2] = sz;
    int n = sx * sy * sz;
    state.assign(n, 0);
    asked.assign(n, 0);
    light.assign(n, {});
    for (int i = 0; i < n; i++)
        for (int s = 0; s < (i * 7 / 3) % 5; s++) {
            auto &x = light[i].samples_by_style[s];
            x.used = true;
            x.style = (s * 37 + i) % 254;
            x.color = {(float)(i % 251), (float)(i * 3 % 256), (float)(s * 50)};
        }
}
// params: size x, y, z, block size of the pattern, which cell is on its own, how many blocks are free
SX_ENTRY(octree)
{
    int s[3];
    for (int k = 0; k < 3; k++) s[k] = (int)sx_param(k);
    plan(s[0], s[1], s[2]);
    mins = {-64, 16, 0.5f};
    dist = {32, 16, 8};
    // walls: whole blocks, and one cell on its own
    int b = (int)sx_param(3), bx = (s[0] + b - 1) / b, by = (s[1] + b - 1) / b, bz = (s[2] + b - 1) / b;
    std::vector<uint8_t> block(bx * by * bz);
    for (size_t i = 0; i < block.size(); i++) block[i] = i * (size_t)sx_param(5) / block.size() != (i + 1) * (size_t)sx_param(5) / block.size() ? sx_bool("wall") : i % 3 != 0;
    int n = s[0] * s[1] * s[2];
    for (int i = 0; i < n; i++) {
        int x = i % s[0], y = i / s[0] % s[1], z = i / s[0] / s[1];
        state[i] = block[x / b + bx * (y / b + by * (z / b))];
    }
    int alone = (int)sx_param(4);
    state[alone] = (uint8_t)sx_choice(3, "state");
    qvec3f hi;
    for (int k = 0; k < 3; k++) hi[k] = mins[k] + dist[k] * (size[k] - 1) + 1;
    check(run(world(mins, hi)));
    sx_reach("octree");
}
// colours and styles of a point
SX_ENTRY(point)
{
    plan(1, 1, 1);
    mins = {};
    dist = {32, 32, 32};
    int used = (int)sx_concretize(sx_range<int>(0, 4, "styles"));
    light[0] = {};
    for (int s = 0; s < used; s++) {
        auto &x = light[0].samples_by_style[s];
        x.used = true;
        x.style = sx_range<int>(0, 253, "style");
        for (int k = 0; k < 3; k++) x.color[k] = s == 0 || k == 0 ? (float)sx_range<int>(-20, 1100, "colour") * 0.25f : (float)(s * 80 + k);
    }
    check(run(world({}, {1, 32, 7})));
    sx_reach("point");
}
// which box the grid covers: the hints that span one, else the world's faces
// params: number of entities
SX_ENTRY(bounds)
{
    static const float at[3] = {-96, -32, 33};
    qvec3f lo{1e9f, 1e9f, 1e9f}, hi{-1e9f, -1e9f, -1e9f};
    bool any = false;
    for (int e = 0; e < sx_param(0); e++) {
        entdict_t d;
        d.set("classname", "info_null");
        int hint = (int)sx_concretize(sx_choice(3, "hint"));
        if (hint) d.set("_lightgrid_hint", hint == 2 ? "0" : "1");
        int o[3];
        for (int k = 0; k < 3; k++) o[k] = (int)sx_concretize(sx_choice(e == 0 ? 2 : 3, "origin"));
        d.set("origin", fmt::format("{} {} {}", (int)at[o[0]], (int)at[o[1]], (int)at[o[2]]));
        entities.push_back(d);
        if (hint != 1) continue;
        any = true;
        for (int k = 0; k < 3; k++) {
            if (at[o[k]] < lo[k]) lo[k] = at[o[k]];
            if (at[o[k]] > hi[k]) hi[k] = at[o[k]];
        }
    }
    bool spans = any && hi[0] > lo[0] && hi[1] > lo[1] && hi[2] > lo[2];
    qvec3f wlo{-64, -16, 8}, whi{64, 17, 40};
    if (!spans) lo = wlo, hi = whi;
    mins = lo;
    dist = {64, 32, 16};
    int s[3];
    for (int k = 0; k < 3; k++) {
        s[k] = 1;
        while (lo[k] + dist[k] * s[k] < hi[k]) s[k]++;
    }
    plan(s[0], s[1], s[2]);
    check(run(world(wlo, whi)));
    sx_reach(spans ? "hints" : "faces");
}
// adding up light of any styles
// params: number of additions
SX_ENTRY(sum)
{
    lightgrid_samples_t a;
    int n = (int)sx_param(0), total[8] = {}, distinct = 0;
    bool lost = false;
    for (int i = 0; i < n && !lost; i++) {
        // the next new style, or one of those before
        int style = (int)sx_concretize(sx_choice(distinct + 1, "style"));
        static const int levels[] = {3, 90, 255};
        int level = i < 3 ? levels[sx_concretize(sx_choice(3, "level"))] : 40 * i;
        lightgrid_samples_t before = a;
        qvec3f c((float)level, 0, (float)(level * 2));
        if (i % 2 ? true : sx_bool("whole")) {
            lightgrid_samples_t x;
            x.add(c, style);
            a += x;
        } else
            a.add(c, style);
        if (style == distinct) {
            distinct++;
            if (distinct > 4) {
                // one is given up: none of the others is dimmer
                lost = true;
                sx_assert(a.used_styles() == 4, "number of styles");
                int there = 0, gone = 0;
                for (int s = 0; s < 4; s++) {
                    bool kept = false;
                    for (auto &x : a.samples_by_style) kept |= x.style == s;
                    if (!kept) {
                        gone = s;
                        there++;
                    }
                }
                sx_assert(there == 1, "not one style is given up for another");
                for (int s = 0; s < 4; s++) sx_assert(total[gone] <= total[s], "a style is given up though another is dimmer");
                sx_reach("full");
            }
            total[style] = 0;
        }
        total[style] += level;
    }
    int used = a.used_styles();
    sx_assert(used == (distinct < 4 ? distinct : 4), "number of styles");
    for (int i = 0; i < used; i++) {
        auto &s = a.samples_by_style[i];
        sx_assert(s.used && s.style >= 0 && s.style < distinct, "a style nobody added");
        for (int j = 0; j < i; j++) sx_assert(a.samples_by_style[j].style != s.style, "a style twice");
        sx_assert(s.color == qvec3f((float)total[s.style], 0, (float)(2 * total[s.style])), "light of a style is not the sum of what was added");
    }
    a /= 2;
    for (int i = 0; i < used; i++) sx_assert(a.samples_by_style[i].color[2] == (float)total[a.samples_by_style[i].style], "half of it");
    sx_reach("sum");
}
