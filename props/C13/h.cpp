// Content flags of each game: what the engines' numbers mean, how contents combine, what can be seen through,
// and what is written.
#include "sx.h"
#include <common/bspfile.hh>
#include <common/bspfile_q1.hh>
#include <common/bspfile_q2.hh>
#include <stdexcept>
#include <string>

static const gamedef_t *game()
{
    static const bspversion_t *v[] = {&bspver_q1, &bspver_h2, &bspver_hl, &bspver_q2};
    return v[sx_param(0)]->game;
}
static bool is_q2() { return sx_param(0) == 3; }

enum : uint64_t { SOLID = 1, SKY = 2, WALL = 4, WINDOW = 8, AUX = 16, LAVA = 32, SLIME = 64, WATER = 128, MIST = 256,
    ORIGIN = 1u << 9, PCLIP = 1u << 10, MCLIP = 1u << 11, AREAPORTAL = 1u << 12, BLOCKER = 1u << 13, DETAIL = 1u << 14,
    MIRROR = 1u << 15, MIRROR_SET = 1u << 16, NOCLIP = 1u << 17, TRANSLUCENT = 1u << 24, VISIBLE = 0x1ff, LIQUID = LAVA | SLIME | WATER, KNOWN = (uint64_t(1) << 38) - 1 };

static contentflags_t make(uint64_t f) { return contentflags_t::make((contents_int_t)f); }
static uint64_t bits(const contentflags_t &c) { return (uint64_t)c.flags; }
static contentflags_t any(const char *name)
{
    uint64_t f = sx_any<uint64_t>(name);
    sx_assume((f & ~KNOWN) == 0);
    // flags a game does not have cannot come up in it
    sx_assume(is_q2() ? (f & SKY) == 0 : (f & AUX) == 0);
    return make(f);
}
static uint64_t strongest(uint64_t f)
{
    f &= VISIBLE;
    return f & (~f + 1);
}
static bool solid(uint64_t f) { return (f & SOLID) && !(f & DETAIL); }

// Quake II: all 32 bits of a file's contents come back, each under the meaning the engine gives it
SX_ENTRY(native_q2)
{
    int32_t n = sx_any<int32_t>("native");
    contentflags_t c = game()->create_contents_from_native(n);
    sx_assert(game()->contents_to_native(c) == n, "contents survive being read and written");
    uint64_t f = bits(c);
    static const uint64_t meaning[32] = {SOLID, WINDOW, AUX, LAVA, SLIME, WATER, MIST, 1ull << 28, 1ull << 29, 1ull << 30, 1ull << 31, 1ull << 32, 1ull << 33,
        1ull << 34, 1ull << 35, AREAPORTAL, PCLIP, MCLIP, 1ull << 18, 1ull << 19, 1ull << 20, 1ull << 21, 1ull << 22, 1ull << 23, ORIGIN, 1ull << 26, 1ull << 27,
        DETAIL, TRANSLUCENT, 1ull << 25, 1ull << 36, 1ull << 37};
    uint64_t want = 0;
    for (int i = 0; i < 32; i++) want |= -(uint64_t)(n >> i & 1) & meaning[i];
    sx_assert(f == want, "each bit has its meaning");
    sx_reach("native_q2");
}
SX_ENTRY(native_q2_back)
{
    contentflags_t c = any("contents");
    uint64_t f = bits(c);
    bool refuse = f & (SKY | WALL | BLOCKER);
    int32_t n = 0;
    bool threw = false;
    try {
        n = game()->contents_to_native(c);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    sx_assert(threw == refuse, "contents Quake II does not have are refused, all others written");
    if (!threw) {
        sx_assert(bits(game()->create_contents_from_native(n)) == (f & ~(MIRROR | MIRROR_SET | NOCLIP)), "contents survive being written and read");
        sx_reach("written");
    } else sx_reach("refused");
}
SX_ENTRY(native_q1)
{
    int32_t n = sx_any<int32_t>("native");
    bool known = (n >= -6) & (n <= -1);
    contentflags_t c{};
    bool threw = false;
    try {
        c = game()->create_contents_from_native(n);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    sx_assert(threw == !known, "exactly the engine's contents are read");
    if (threw) {
        sx_reach("refused");
        return;
    }
    static const uint64_t meaning[] = {0, SOLID, WATER, SLIME, LAVA, SKY};
    sx_assert(bits(c) == meaning[-1 - (int)sx_concretize(n)], "each number has its meaning");
    sx_assert(game()->contents_to_native(c) == n, "contents survive being read and written");
    sx_reach("read");
}
SX_ENTRY(native_q1_back)
{
    contentflags_t c = any("contents");
    uint64_t s = strongest(bits(c));
    int want = s == 0 ? CONTENTS_EMPTY : s == SOLID ? CONTENTS_SOLID : s == SKY ? CONTENTS_SKY : s == LAVA ? CONTENTS_LAVA : s == SLIME ? CONTENTS_SLIME : s == WATER ? CONTENTS_WATER : 0;
    int n = 0;
    try {
        n = game()->contents_to_native(c);
    } catch (const std::invalid_argument &) {
    }
    sx_assert(n == want, "the strongest contents are written; those the engine does not have are refused");
    sx_reach("native_q1_back");
}

// questions about contents
SX_ENTRY(kinds)
{
    contentflags_t c = any("contents");
    uint64_t f = bits(c);
    const gamedef_t *g = game();
    sx_assert(c.is_any_solid(g) == ((f & SOLID) != 0), "solid of any kind");
    sx_assert(c.is_solid(g) == solid(f), "structural solid");
    sx_assert(c.is_any_detail(g) == ((f & DETAIL) != 0), "detail of any kind");
    sx_assert(c.is_detail_solid(g) == ((f & (DETAIL | SOLID)) == (DETAIL | SOLID)), "detail solid");
    bool shadowed = is_q2() && (f & SOLID);
    sx_assert(c.is_detail_wall(g) == (!shadowed && (f & (DETAIL | WALL)) == (DETAIL | WALL)), "detail wall");
    sx_assert(c.is_detail_fence(g) == (!shadowed && (f & (DETAIL | WINDOW)) == (DETAIL | WINDOW)), "detail fence");
    bool mist = (f & DETAIL) && (f & (MIST | (is_q2() ? AUX : 0)));
    sx_assert(c.is_detail_illusionary(g) == (!shadowed && mist), "detail illusionary");
    sx_assert(c.is_fence(g) == (c.is_detail_fence(g) || c.is_detail_illusionary(g)), "fences");
    sx_assert(c.is_origin(g) == ((f & ORIGIN) != 0), "origin");
    sx_assert(c.is_clip(g) == ((f & (PCLIP | (is_q2() ? MCLIP : 0))) != 0), "clip");
    sx_assert(c.is_sky(g) == ((f & SKY) != 0), "sky");
    uint64_t s = strongest(f);
    if (is_q2()) sx_assert(c.is_liquid(g) == ((f & (LIQUID | AREAPORTAL)) != 0), "liquid");
    else sx_assert(c.is_liquid(g) == ((s & LIQUID) != 0), "liquid");
    if (!(f & (AREAPORTAL | BLOCKER | MCLIP)) || is_q2())
        sx_assert(c.is_empty(g) == ((f & (VISIBLE | 0x3e00)) == 0), "empty");
    sx_assert(g->contents_seals_map(c) == (solid(f) || (f & SKY) != 0), "what seals a map");
    sx_assert(c.equals(g, c), "contents equal themselves");
    sx_assert(bits(c.visible_contents()) == s, "the strongest visible contents");
    sx_assert(c.visible_contents_index() == (s ? __builtin_ctzll(s) : -1), "and their number");
    bool v = sx_bool("value");
    contentflags_t m = c;
    m.set_mirrored(v);
    sx_assert(m.mirror_inside() == std::optional<bool>(v) && (bits(m) | MIRROR | MIRROR_SET) == (f | MIRROR | MIRROR_SET), "mirroring is set");
    m.set_mirrored(std::nullopt);
    sx_assert(!m.mirror_inside() && (bits(m) == (f & ~(MIRROR | MIRROR_SET))), "mirroring is left to the default");
    m = c;
    m.set_clips_same_type(false);
    sx_assert(bits(m) == (f | NOCLIP) && m.clips_same_type() == std::optional<bool>(false), "clipping by the same kind is turned off");
    sx_reach("kinds");
}

// detail variants
SX_ENTRY(details)
{
    const gamedef_t *g = game();
    contentflags_t c = any("contents");
    uint64_t f = bits(c);
    auto fence = g->create_detail_fence_contents(c), ill = g->create_detail_illusionary_contents(c), wall = g->create_detail_wall_contents(c),
         sol = g->create_detail_solid_contents(c);
    sx_assert(fence.is_detail_fence(g) && ill.is_detail_illusionary(g) && wall.is_detail_wall(g) && sol.is_detail_solid(g), "each variant is what it is called");
    for (auto &x : {fence, ill, wall, sol}) {
        sx_assert(x.is_any_detail(g) && !x.is_solid(g) && !x.is_empty(g), "variants are detail and not structural");
        if (is_q2()) sx_assert((f & ~(bits(x) | SOLID)) == 0, "other contents are kept");
        else sx_assert(!g->contents_seals_map(x), "detail does not seal the map");
    }
    sx_assert(!(bits(fence) & SOLID) && !(bits(ill) & SOLID) && !(bits(wall) & SOLID), "what is seen through is not solid");
    sx_assert(bits(g->set_detail(c)) == (f | DETAIL) && bits(g->clear_detail(c)) == (f & ~DETAIL), "detail is set and cleared alone");
    sx_assert(g->create_empty_contents().is_empty(g) && g->create_solid_contents().is_solid(g), "empty and solid");
    sx_reach("details");
}

// several brushes in one leaf, and several leafs in one cluster
SX_ENTRY(combine)
{
    const gamedef_t *g = game();
    contentflags_t a = any("a"), b = any("b"), c = any("c");
    uint64_t x = bits(a), y = bits(b);
    auto ab = g->combine_contents(a, b);
    sx_assert(bits(ab) == bits(g->combine_contents(b, a)), "the order of two brushes does not matter");
    sx_assert(bits(g->combine_contents(ab, c)) == bits(g->combine_contents(a, g->combine_contents(b, c))), "the order of three brushes does not matter");
    sx_assert(bits(g->combine_contents(ab, b)) == bits(ab), "a brush counts once");
    if (solid(x) || solid(y)) sx_assert(bits(ab) == SOLID, "structural solid wins");
    else if ((x | y) & SKY) sx_assert(bits(ab) == SKY, "then sky wins");
    else sx_assert(bits(ab) == (x | y), "all else is kept");
    sx_assert(g->contents_seals_map(ab) == (g->contents_seals_map(a) || g->contents_seals_map(b)), "a leaf seals the map exactly when one of its brushes does");
    auto k = g->cluster_contents(a, b);
    sx_assert(bits(k) == bits(g->cluster_contents(b, a)), "the order of leafs does not matter");
    sx_assert(bits(k) == (((x | y) & ~SOLID) | (x & y & SOLID)), "a cluster has all its leafs' contents, and is solid when all of them are");
    sx_reach("combine");
}

// what vis may see through
SX_ENTRY(see)
{
    const gamedef_t *g = game();
    contentflags_t a = any("a"), b = any("b");
    bool trans = sx_bool("transwater");
    uint64_t x = bits(a), y = bits(b);
    bool can = g->portal_can_see_through(a, b, trans);
    sx_assert(can == g->portal_can_see_through(b, a, trans), "seeing works both ways");
    auto left = [&](uint64_t f) -> uint64_t {
        bool through = (f & DETAIL) || (is_q2() ? (f & TRANSLUCENT) != 0 : trans && (f & LIQUID));
        return through ? 0 : f & VISIBLE;
    };
    bool want = !((x | y) & SOLID) && (((x ^ y) & VISIBLE) == 0 || left(x) == left(y));
    sx_assert(can == want, "seen through: the same contents, and different ones unless one of them is opaque");
    bool opaque = g->contents_are_opaque(a, trans);
    uint64_t s = strongest(x);
    if (is_q2()) sx_assert(opaque == (s != 0 && !(x & TRANSLUCENT)), "opaque contents");
    else sx_assert(opaque == ((s & (SOLID | SKY | WALL)) || ((s & LIQUID) && !trans)), "opaque contents");
    sx_reach("see");
}

// which contents a face between two leafs shows, and which brush sides show it
SX_ENTRY(faces)
{
    const gamedef_t *g = game();
    contentflags_t a = any("a"), b = any("b"), brush = any("brush");
    uint64_t x = bits(a), y = bits(b), z = bits(brush);
    auto v = g->portal_visible_contents(a, b);
    sx_assert(bits(v) == bits(g->portal_visible_contents(b, a)), "what is shown does not depend on the side");
    uint64_t want = strongest((x | y) & NOCLIP ? x | y : x ^ y);
    if (!is_q2() && (x & (SOLID | SKY)) && (y & (SOLID | SKY))) want = 0;
    sx_assert(bits(v) == want, "the strongest contents that change are shown");
    bool front = g->portal_generates_face(v, brush, SIDE_FRONT), back = g->portal_generates_face(v, brush, SIDE_BACK);
    sx_assert(front == ((want & z) != 0), "brushes with these contents show them");
    bool mirror = (z & MIRROR_SET) ? (z & MIRROR) != 0 : is_q2() ? !(want & (WINDOW | AUX)) : (z & LIQUID) != 0;
    sx_assert(back == (front && mirror), "insides are shown when mirrored");
    sx_assert(a.will_clip_same_type(g, b) ==
            ((is_q2() ? ((x ^ y) & VISIBLE) == 0 : x == y) && !(x & NOCLIP)), "brushes clip others of their kind unless told not to");
    sx_reach("faces");
}

// any mix of brushes a map can have can be written
SX_ENTRY(export_mix)
{
    const gamedef_t *g = game();
    int leaf = (int)sx_param(1);
    contentflags_t none = g->create_empty_contents(), so = g->create_solid_contents();
    contentflags_t gens[] = {so, g->create_detail_solid_contents(so), g->create_detail_fence_contents(so), g->create_detail_wall_contents(so),
        g->create_detail_illusionary_contents(so), make(LAVA), make(SLIME), make(WATER), g->set_detail(make(WATER)), make(is_q2() ? AUX | DETAIL : SKY),
        make(PCLIP | (is_q2() ? DETAIL : 0)), make(is_q2() ? (uint64_t)AREAPORTAL : (uint64_t)BLOCKER)};
    contentflags_t c = none;
    uint64_t all = 0;
    for (auto &x : gens)
        if (sx_bool("brush")) {
            c = g->combine_contents(c, x);
            all |= bits(x);
        }
    if (!leaf && is_q2()) c = gens[sx_choice(12, "one brush")];
    auto r = g->contents_remap_for_export(c, leaf ? gamedef_t::remap_type_t::leaf : gamedef_t::remap_type_t::brush);
    int n = g->contents_to_native(r); // throws if it cannot be written
    uint64_t f = bits(c);
    if (is_q2()) {
        if ((f & WALL) || (leaf && (f & SOLID))) sx_assert(n == Q2_CONTENTS_SOLID, "solid is written alone");
        else sx_assert(bits(g->create_contents_from_native(n)) == f, "the contents are written");
    } else {
        uint64_t s = f & (WALL | WINDOW) ? (uint64_t)SOLID : strongest(f & ~MIST);
        sx_assert(bits(g->create_contents_from_native(n)) == s, "the strongest contents are written; fences and walls as solid, illusionary detail as what is in it");
    }
    sx_reach("export_mix");
}

static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool starts(const std::string &s, const char *p, bool whole)
{
    size_t n = strlen(p);
    if (s.size() < n || (whole && s.size() != n)) return false;
    for (size_t i = 0; i < n; i++)
        if (low(s[i]) != p[i]) return false;
    return true;
}
// Quake: a texture's name says what a brush is
SX_ENTRY(names)
{
    static const char *bases[] = {"origin", "hint", "hintskip", "clip", "*lava", "*slime", "*water", "sky", "skip", "trigger"};
    const gamedef_t *g = game();
    std::string s = bases[sx_param(1)];
    int change = (int)sx_param(2);
    if (change == 0) s += sx_any<char>("more");
    else if (change == 1) s.pop_back();
    // every letter in either case; one replaced
    for (auto &c : s)
        if (sx_bool("capital")) c = c >= 'a' && c <= 'z' ? c - 32 : c;
    if (change == 2) s[(s.size() - 1) * sx_bool("where")] = sx_any<char>("other");
    for (char c : s) sx_assume(c > 32 && c < 127);
    uint64_t want = SOLID;
    if (starts(s, "origin", true)) want = ORIGIN;
    else if (starts(s, "hint", true) || starts(s, "hintskip", true)) want = 0;
    else if (starts(s, "clip", true)) want = PCLIP;
    else if (starts(s, "*lava", false)) want = LAVA;
    else if (starts(s, "*slime", false)) want = SLIME;
    else if (s[0] == '*') want = WATER;
    else if (starts(s, "sky", false)) want = SKY;
    sx_assert(bits(g->face_get_contents(s, surfflags_t(), make(0))) == want, "the contents a texture's name stands for");
    surfflags_t fl{};
    fl.native = sx_any<int32_t>("flags");
    sx_assert(g->surf_is_lightmapped(fl, s.c_str(), sx_bool("nodraw"), sx_bool("grid")) == (!starts(s, "trigger", true) && !starts(s, "skip", true) && !(fl.native & 1)), "which faces have lightmaps");
    sx_assert(g->texinfo_is_hintskip(fl, s) == !starts(s, "hint", true), "which faces of a hint brush are skipped");
    sx_reach("names");
}
// Quake II: a face's flags say what a brush is
SX_ENTRY(flags_q2)
{
    const gamedef_t *g = game();
    contentflags_t c = any("contents");
    surfflags_t fl{};
    fl.native = sx_any<int32_t>("flags");
    uint64_t f = bits(c), r = bits(g->face_get_contents("e1u1/x", fl, c));
    if (fl.native & (Q2_SURF_HINT | Q2_SURF_SKIP)) {
        sx_assert(r == 0, "hint and skip have no contents");
        sx_reach("hint");
        return;
    }
    uint64_t want = f & 0x3fff ? f : f | SOLID;
    if (fl.native & (Q2_SURF_TRANS33 | Q2_SURF_TRANS66 | Q2_SURF_ALPHATEST)) {
        want |= TRANSLUCENT;
        if (want & SOLID) want = (want & ~SOLID) | WINDOW;
    }
    if (want & (TRANSLUCENT | MIST | AUX | PCLIP | MCLIP)) want |= DETAIL;
    sx_assert(r == want, "the contents a face's flags stand for");
    bool nodraw = sx_bool("nodraw"), grid = sx_bool("grid");
    bool lit = nodraw && (fl.native & Q2_SURF_NODRAW) ? true : grid && (fl.native & Q2_SURF_SKY) ? false : !(fl.native & (Q2_SURF_NODRAW | Q2_SURF_SKIP));
    sx_assert(g->surf_is_lightmapped(fl, "e1u1/x", nodraw, grid) == lit, "which faces have lightmaps");
    sx_assert(!g->surf_is_lightmapped(fl, "e1u1/trigger", nodraw, grid), "triggers have none");
    sx_assert(g->texinfo_is_hintskip(fl, "x") == !(fl.native & Q2_SURF_HINT), "which faces of a hint brush are skipped");
    surfflags_t o{};
    o.native = sx_any<int32_t>("other");
    int32_t m = Q2_SURF_SKY | Q2_SURF_WARP | Q2_SURF_TRANS33 | Q2_SURF_TRANS66 | Q2_SURF_FLOWING | Q2_SURF_NODRAW;
    sx_assert(g->surfflags_may_phong(fl, o) == ((fl.native & m) == (o.native & m)), "which faces may be smoothed together");
    sx_reach("face");
}

// surface flags are kept apart, in one order
#define FIELDS(X) X(native) X(is_nodraw) X(is_hint) X(is_hintskip) X(no_dirt) X(no_shadow) X(no_bounce) X(no_minlight) X(no_expand) X(no_phong) X(light_ignore) \
    X(surflight_rescale) X(surflight_style) X(surflight_color) X(surflight_minlight_scale) X(phong_angle) X(phong_angle_concave) X(phong_group) X(minlight) X(minlight_color) \
    X(light_alpha) X(light_twosided) X(maxlight) X(lightcolorscale) X(surflight_group) X(world_units_per_luxel) X(object_channel_mask)
template<class T> struct gen
{
    static void set(T &t) { t = sx_any<T>("field"); if constexpr (std::is_floating_point_v<T>) sx_assume(t == t); }
};
template<> struct gen<bool>
{
    static void set(bool &t) { t = sx_bool("field"); }
};
template<class T> struct gen<std::optional<T>>
{
    static void set(std::optional<T> &t)
    {
        T v;
        gen<T>::set(v);
        if (sx_bool("has")) t = v;
    }
};
template<> struct gen<qvec3b>
{
    static void set(qvec3b &t) { for (int i = 0; i < 3; i++) t[i] = sx_any<uint8_t>("field"); }
};
static bool differ_in(const surfflags_t &a, const surfflags_t &b, int i)
{
    int n = 0;
#define X(m) if (n++ == i) return !(a.m == b.m);
    FIELDS(X)
#undef X
    return a.surflight_targetname != b.surflight_targetname;
}
static void set(surfflags_t &a, int i)
{
    int n = 0;
#define X(m) if (n++ == i) { gen<std::remove_reference_t<decltype(a.m)>>::set(a.m); return; }
    FIELDS(X)
#undef X
    if (sx_bool("has")) a.surflight_targetname = std::string(1, sx_any<char>("field"));
}
SX_ENTRY(surfaces)
{
    int f1 = (int)sx_param(1), f2 = (int)sx_param(2);
    surfflags_t a{}, b{}, c{}, none{};
    for (auto *x : {&a, &b, &c}) set(*x, f1), set(*x, f2);
    bool same = !differ_in(a, b, f1) && !differ_in(a, b, f2);
    sx_assert((a < b) + (b < a) == (same ? 0 : 1), "different flags are told apart, in one order");
    sx_assert((a > b) == (b < a), "greater is the reverse of less");
    if (a < b && b < c) sx_assert(a < c, "the order is transitive");
    sx_assert(a.needs_write() == (differ_in(a, none, f1) || differ_in(a, none, f2)), "flags other than the default are written");
    sx_reach("surfaces");
}
