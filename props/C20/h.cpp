// Brushes become a tree that says of every point what the brushes say of it, for the eye and for every clip hull.
#include <fstream>
#include "sx.h"
#include <qbsp/brush.hh>
#include <qbsp/brushbsp.hh>
#include <qbsp/map.hh>
#include <qbsp/qbsp.hh>
#include <qbsp/tree.hh>
#include <algorithm>
#include <cmath>
#include <string>
#include <vector>

struct vec
{
    int v[3];
    vec operator-(const vec &o) const { return {v[0] - o.v[0], v[1] - o.v[1], v[2] - o.v[2]}; }
    long dot(const vec &o) const { return (long)v[0] * o.v[0] + (long)v[1] * o.v[1] + (long)v[2] * o.v[2]; }
};
static vec cross(const vec &a, const vec &b)
{
    return {a.v[1] * b.v[2] - a.v[2] * b.v[1], a.v[2] * b.v[0] - a.v[0] * b.v[2], a.v[0] * b.v[1] - a.v[1] * b.v[0]};
}
// a convex solid with whole coordinates: the points, and three points of each face, clockwise from outside
struct solid
{
    std::vector<vec> points;
    std::vector<vec> faces;
    std::vector<vec> edges; // directions
};
static solid box(int x0, int y0, int z0, int x1, int y1, int z1)
{
    solid s;
    for (int i = 0; i < 8; i++) s.points.push_back({{i & 1 ? x1 : x0, i & 2 ? y1 : y0, i & 4 ? z1 : z0}});
    s.faces = {{{0, 2, 1}}, {{4, 5, 6}}, {{0, 1, 4}}, {{2, 6, 3}}, {{0, 4, 2}}, {{1, 3, 5}}};
    return s;
}
static solid shape(int n)
{
    solid s;
    switch (n) {
    case 0: s = box(-64, -64, -64, 64, 64, 64); break;
    case 1: s = box(0, 16, -32, 128, 96, 96); break; // overlaps a corner
    case 2: s = box(-128, -128, -16, 128, 128, 16); break; // a slab through it
    case 3: s = box(-32, -32, -32, 32, 32, 32); break; // inside
    case 4: s = box(64, -64, -64, 128, 64, 64); break; // touches a face
    case 5: s = box(200, 200, 200, 240, 240, 264); break; // far off
    case 6: // a ramp
        s.points = {{{-60, -48, -40}}, {{60, -48, -40}}, {{60, -48, 50}}, {{-60, 48, -40}}, {{60, 48, -40}}, {{60, 48, 50}}};
        s.faces = {{{0, 1, 2}}, {{3, 5, 4}}, {{0, 3, 1}}, {{1, 4, 2}}, {{0, 2, 3}}};
        s.edges = {{{4, 0, 3}}};
        break;
    case 7: // a pyramid
        s.points = {{{-64, -64, 0}}, {{64, -64, 0}}, {{-64, 64, 0}}, {{64, 64, 0}}, {{0, 0, 96}}};
        s.faces = {{{0, 2, 1}}, {{0, 1, 4}}, {{1, 3, 4}}, {{3, 2, 4}}, {{2, 0, 4}}};
        s.edges = {{{2, 2, 3}}, {{-2, 2, 3}}, {{2, -2, 3}}, {{-2, -2, 3}}};
        break;
    case 8: // a tetrahedron with no upright face
        s.points = {{{0, -64, -48}}, {{64, 64, -32}}, {{-80, 48, -16}}, {{8, 16, 80}}};
        s.faces = {{{0, 2, 1}}, {{0, 1, 3}}, {{1, 2, 3}}, {{2, 0, 3}}};
        s.edges = {{{64, 128, 16}}, {{-80, 112, 32}}, {{8, 80, 128}}, {{-144, -16, 16}}, {{-56, -48, 112}}, {{88, -32, 96}}};
        break;
    case 9: // a box with a corner cut off
        s = box(-64, -64, -64, 64, 64, 64);
        s.points.erase(s.points.begin() + 7);
        s.points.push_back({{64, 64, 0}});
        s.points.push_back({{64, 0, 64}});
        s.points.push_back({{0, 64, 64}});
        s.faces.push_back({{7, 9, 8}});
        s.edges = {{{0, 1, -1}}, {{1, 0, -1}}, {{1, -1, 0}}};
        break;
    case 10: // a prism that is turned by 45 degrees
        s.points = {{{0, -80, -40}}, {{80, 0, -40}}, {{0, 80, -40}}, {{-80, 0, -40}}, {{0, -80, 40}}, {{80, 0, 40}}, {{0, 80, 40}}, {{-80, 0, 40}}};
        s.faces = {{{0, 2, 1}}, {{4, 5, 6}}, {{0, 1, 4}}, {{1, 2, 5}}, {{2, 3, 6}}, {{3, 0, 7}}};
        s.edges = {{{1, 1, 0}}, {{1, -1, 0}}};
        break;
    case 12: s = box(63, -32, -32, 128, 32, 32); break; // overlaps by a unit
    case 13: s = box(-60, -40, 20, -10, 40, 90); break; // above the ramp, in its bounds
    case 11: s = box(-16, -16, 40, 16, 16, 140); break; // a pillar through the top
    }
    return s;
}
// outward normal of a face, reduced to small numbers
static vec normal(const solid &s, const vec &f)
{
    const vec &a = s.points[f.v[0]], &b = s.points[f.v[1]], &c = s.points[f.v[2]];
    vec n = cross(c - a, b - a);
    long m = 0;
    vec centre{};
    for (auto &p : s.points)
        for (int i = 0; i < 3; i++) centre.v[i] += p.v[i];
    for (int i = 0; i < 3; i++) centre.v[i] /= (int)s.points.size();
    (void)m;
    int g = std::abs(n.v[0]);
    for (int i = 1; i < 3; i++) {
        int x = g, y = std::abs(n.v[i]);
        while (y) std::swap(x, y), y %= x;
        g = x;
    }
    for (int i = 0; i < 3; i++) n.v[i] /= g;
    if (n.dot(a - centre) < 0)
        for (int i = 0; i < 3; i++) n.v[i] = -n.v[i];
    return n;
}
static mapbrush_t brush_of(const solid &s, contentflags_t contents, int texinfo)
{
    mapbrush_t b;
    b.contents = contents;
    for (auto &f : s.faces) {
        mapface_t &m = b.faces.emplace_back();
        vec n = normal(s, f);
        std::array<qvec3d, 3> p;
        for (int i = 0; i < 3; i++) p[i] = {(double)s.points[f.v[i]].v[0], (double)s.points[f.v[i]].v[1], (double)s.points[f.v[i]].v[2]};
        m.set_planepts(p);
        if (qv::dot(map.get_plane(m.planenum).get_normal(), qvec3d{(double)n.v[0], (double)n.v[1], (double)n.v[2]}) < 0) {
            std::swap(p[0], p[2]);
            m.set_planepts(p);
        }
        m.texinfo = texinfo;
        m.contents = contents;
        m.visible = true;
    }
    return b;
}
struct point
{
    int16_t c[3]; // twice the coordinates
};
// the half-spaces whose intersection is where the player's box touches the solid
struct halfspace
{
    vec n;
    long d; // n.p < d
};
static std::vector<halfspace> grown(const solid &s, const aabb3d &hull)
{
    std::vector<vec> axes;
    for (auto &f : s.faces) axes.push_back(normal(s, f));
    for (int i = 0; i < 3; i++)
        for (int k = -1; k <= 1; k += 2) {
            vec a{};
            a.v[i] = k;
            axes.push_back(a);
            for (auto &e : s.edges) axes.push_back(cross(e, a));
        }
    std::vector<halfspace> out;
    for (auto &n : axes) {
        if (!n.v[0] && !n.v[1] && !n.v[2]) continue;
        long d = n.dot(s.points[0]);
        for (auto &p : s.points) d = std::max(d, n.dot(p));
        for (int i = 0; i < 3; i++) d += n.v[i] * (long)(n.v[i] > 0 ? hull[1][i] : hull[0][i]);
        out.push_back({n, d});
    }
    return out;
}
// for every plane of a solid: is the point behind it?
struct cut
{
    vec n;
    long d;
    double length;
    int behind;
};
static std::vector<cut> cuts;
static int behind(const halfspace &h, const point &p)
{
    vec n = h.n;
    long d = h.d;
    // one cut for a plane and its other side
    bool flip = n.v[0] < 0 || (n.v[0] == 0 && (n.v[1] < 0 || (n.v[1] == 0 && n.v[2] < 0)));
    if (flip) {
        for (int i = 0; i < 3; i++) n.v[i] = -n.v[i];
        d = -d;
    }
    for (auto &c : cuts)
        if (c.n.v[0] == n.v[0] && c.n.v[1] == n.v[1] && c.n.v[2] == n.v[2] && c.d == d) return flip ? !c.behind : c.behind;
    int at = p.c[0] * n.v[0] + p.c[1] * n.v[1] + p.c[2] * n.v[2];
    int axial = !n.v[1] + !n.v[2] + !n.v[0] == 2;
    if (!axial) sx_assume(at != (int)(2 * d));
    cuts.push_back({n, d, sqrt((double)n.dot(n)), at < (int)(2 * d)});
    return flip ? !cuts.back().behind : cuts.back().behind;
}
static int inside(const std::vector<halfspace> &h, const point &p)
{
    int in = 1;
    for (auto &s : h) in &= behind(s, p);
    return in;
}
struct verdict
{
    int n;
    const std::vector<std::vector<halfspace>> *solids;
    int in[4];
    bool (*right)(int set, const contentflags_t &c);
    int leafs;
};
// behind plane, as one of the cuts
static int behind(size_t planenum)
{
    auto &pl = map.get_plane(planenum);
    for (auto &c : cuts)
        for (int s = 1; s >= -1; s -= 2) {
            if (fabs(c.d / c.length - s * pl.get_dist()) > 0.001) continue;
            bool same = true;
            for (int i = 0; i < 3; i++) same &= fabs(c.n.v[i] / c.length - s * pl.get_normal()[i]) < 0.00001;
            if (same) return s == 1 ? c.behind : !c.behind;
        }
    sx_fail("a plane of a node or piece is of no brush");
}
static int inside(const bspbrush_t &b, const point &p)
{
    int in = 1;
    for (auto &s : b.sides) in &= behind(s.planenum);
    return in;
}
static point any_point()
{
    point p;
    for (int i = 0; i < 3; i++) {
        p.c[i] = sx_range<int16_t>(-700, 700, "twice a coordinate");
        sx_assume(p.c[i] & 1);
    }
    return p;
}
static void walk(const node_t *node, const point &p, int here, verdict &v)
{
    if (auto *leaf = node->get_leafdata()) {
        v.leafs++;
        int bad = 0;
        for (int set = 0; set < 1 << v.n; set++) {
            if (v.right(set, leaf->contents)) continue;
            int is = 1;
            for (int i = 0; i < v.n; i++) is &= v.in[i] == (set >> i & 1);
            bad |= is;
        }
        sx_assert(!(here & bad), "the leaf a point is in does not have the contents of the brushes at the point");
        return;
    }
    auto *data = node->get_nodedata();
    sx_assert(!(data->planenum & 1), "a node's plane is not the positive one");
    int back = behind(data->planenum);
    walk(data->children[0], p, here & !back, v);
    walk(data->children[1], p, here & back, v);
}

static const gamedef_t *game_of(int id)
{
    static const gamedef_t *games[] = {bspver_q1.game, bspver_h2.game, bspver_hl.game, bspver_q2.game};
    return games[id];
}
static void setup(int game)
{
    qbsp_options.target_game = game_of(game);
    qbsp_options.bsp_path = "m.bsp";
    qbsp_options.worldextent.set_value(1024, settings::source::COMMANDLINE);
    map.miptex.resize(2);
    map.miptex[0].name = "wall";
    map.miptex[1].name = "skip";
    map.mtexinfos.resize(3);
    map.mtexinfos[1].miptex = 1;
    map.mtexinfos[1].flags.is_nodraw = true;
    map.mtexinfos[2].flags.is_hint = true;
    map.skip_texinfo = 1;
    map.entities.emplace_back(); // the world
    map.entities[0].epairs.set("classname", "worldspawn");
    map.entities.reserve(8);
}
// params: game, hull (-1: all brushes), brushes, shapes of each, kinds of each, entity kinds, options (1 chop, 2 fragments), split
enum kind { SOLID, WATER, SKY, CLIP, DETAIL, WALL, FENCE, ILLUSIONARY, HINT, KINDS };
static int game_id, hull_id, count, options;
static int kinds[4];
static contents_int_t visible_of(int k)
{
    static const contents_int_t f[] = {EWT_VISCONTENTS_SOLID, EWT_VISCONTENTS_WATER, EWT_VISCONTENTS_SKY, 0, EWT_VISCONTENTS_SOLID, EWT_VISCONTENTS_DETAIL_WALL, EWT_VISCONTENTS_WINDOW, EWT_VISCONTENTS_MIST, 0};
    return f[k];
}
// is it right that a leaf in these brushes and no other has these contents?
static bool right_contents(int set, const contentflags_t &c)
{
    auto *game = qbsp_options.target_game;
    bool structural = false, sky = false, detail_solid = false;
    contents_int_t others = 0;
    for (int i = 0; i < count; i++) {
        if (!(set >> i & 1)) continue;
        int k = kinds[i];
        if (hull_id > 0) {
            // in a clip hull: solid, or nothing
            if (k == SOLID || k == SKY || k == CLIP || k == DETAIL || k == WALL || k == FENCE) structural = true;
            continue;
        }
        if (k == SOLID) structural = true;
        if (k == SKY) sky = true;
        if (k == DETAIL) detail_solid = true;
        if (k == CLIP && hull_id < 0) others |= EWT_INVISCONTENTS_PLAYERCLIP;
        if (k == WATER || k == WALL || k == FENCE || k == ILLUSIONARY || (game_id == 3 && k == SKY)) others |= visible_of(k);
    }
    if (structural) return c.is_solid(game);
    if (c.is_solid(game)) return false;
    if (sky && game_id != 3) return c.is_sky(game);
    contents_int_t mask = EWT_ALL_VISIBLE_CONTENTS | EWT_INVISCONTENTS_PLAYERCLIP;
    if (detail_solid) others |= EWT_VISCONTENTS_SOLID;
    bool detail = detail_solid || (others & (EWT_VISCONTENTS_DETAIL_WALL | EWT_VISCONTENTS_WINDOW | EWT_VISCONTENTS_MIST));
    return (c.flags & mask) == others && c.is_any_detail(game) == detail;
}
SX_ENTRY(world)
{
    game_id = (int)sx_param(0);
    hull_id = (int)sx_param(1);
    count = (int)sx_param(2);
    options = (int)sx_param(6);
    setup(game_id);
    static const int menus[][6] = {{0, 1, 2, 3, 4, 5}, {0, 3, 11, 1, 2, 4}, {6, 7, 8, 9, 10, 0}, {8, 7, 9, 10, 6, 0}, {12, 13, 4, 9}};
    static const int kind_menus[][KINDS] = {{SOLID, WATER, DETAIL, SKY, CLIP, WALL, FENCE, ILLUSIONARY, HINT}, {WATER, DETAIL, SOLID, WALL, FENCE, SKY, HINT, CLIP, ILLUSIONARY}, {SOLID, FENCE, ILLUSIONARY, WALL, DETAIL, CLIP, HINT, WATER, SKY}, {DETAIL, WATER, SOLID, SOLID}};
    static const char *classes[] = {nullptr, nullptr, nullptr, nullptr, "func_detail", "func_detail_wall", "func_detail_fence", "func_detail_illusionary", nullptr};
    std::vector<std::vector<halfspace>> solids;
    std::vector<solid> all;
    aabb3d hull{qvec3d{0, 0, 0}, qvec3d{0, 0, 0}};
    if (hull_id > 0) hull = *(qbsp_options.target_game->get_hull_sizes().begin() + hull_id);
    int shapes = (int)sx_param(3), shapes0 = (int)sx_param(4), kk = (int)sx_param(5);
    aabb3d expect;
    for (int i = 0; i < count; i++) {
        int sh = menus[i == 0 ? shapes0 / 10 : shapes / 10][sx_choice(i == 0 ? shapes0 % 10 : shapes % 10, "shape")];
        kinds[i] = kind_menus[i == 0 ? kk / 100 : kk / 10 % 10][sx_choice(kk % 10, "kind")];
        all.push_back(shape(sh));
        solids.push_back(grown(all.back(), hull));
        int k = kinds[i];
        bool counts = hull_id < 0 || (hull_id == 0 ? true : k == SOLID || k == SKY || k == CLIP || k == DETAIL || k == WALL || k == FENCE);
        for (auto &pt : all.back().points)
            for (int e = 0; e < 2 && counts; e++) expect += qvec3d{(double)pt.v[0], (double)pt.v[1], (double)pt.v[2]} + (e ? hull.maxs() : hull.mins());
        contents_int_t flags = k == CLIP ? (contents_int_t)EWT_INVISCONTENTS_PLAYERCLIP : k == HINT ? (contents_int_t)0 : k >= DETAIL ? (contents_int_t)EWT_VISCONTENTS_SOLID : visible_of(k);
        mapentity_t *e = &map.entities[0];
        if (classes[k]) {
            e = &map.entities.emplace_back();
            e->epairs.set("classname", classes[k]);
            if (options & 4) e->epairs.set("_chop_order", i == 0 ? "2" : "1");
        }
        auto b = brush_of(all.back(), contentflags_t::make(flags), k == HINT ? 2 : 0);
        b.line.line_number = i + 1;
        e->mapbrushes.push_back(std::move(b));
    }
    ProcessMapBrushes();
    hull_index_t hullnum;
    if (hull_id >= 0) hullnum = hull_id;
    bspbrush_t::container brushes;
    size_t clipped = 0;
    auto &world = map.entities[0];
    world.bounds = {};
    Brush_LoadEntity(world, hullnum, brushes, clipped);
    if (options & 1) {
        std::sort(brushes.begin(), brushes.end(), [](const bspbrush_t::ptr &a, const bspbrush_t::ptr &b) -> bool {
            if (a->mapbrush->chop_index == b->mapbrush->chop_index) return a->mapbrush->line.line_number < b->mapbrush->line.line_number;
            return a->mapbrush->chop_index < b->mapbrush->chop_index;
        });
        ChopBrushes(brushes, options & 2);
    }
    tree_t tree;
    BrushBSP(tree, world, brushes, (tree_split_t)sx_param(7));
    point p = any_point();
    if (brushes.empty()) {
        // an empty model still has a node
        auto *data = tree.headnode->get_nodedata();
        for (int i = 0; i < 2; i++) sx_assert(data && data->children[i]->get_leafdata()->contents.is_empty(qbsp_options.target_game), "a model of no brushes is not empty");
        sx_end();
    }
    verdict v{};
    v.n = count;
    v.right = right_contents;
    for (int i = 0; i < count; i++) v.in[i] = inside(solids[i], p);
    walk(tree.headnode, p, 1, v);
    bool bounds = true; // to what rounding leaves of it
    for (int e = 0; e < 2; e++)
        for (int i = 0; i < 3; i++) bounds &= fabs(world.bounds[e][i] - expect[e][i]) < 0.01;
    sx_assert(bounds || brushes.empty(), "the bounds of the model are not those of its brushes");
    for (int i = 0; i < 3 && !brushes.empty(); i++)
        sx_assert(tree.bounds.mins()[i] >= expect.mins()[i] - 0.01 && tree.bounds.maxs()[i] <= expect.maxs()[i] + 0.01, "the tree is larger than the brushes");
    if (options & 2) {
        // chopped to pieces that do not overlap
        std::vector<int> in;
        for (auto &b : brushes)
            if (b->contents.is_any_solid(qbsp_options.target_game)) in.push_back(inside(*b, p));
        for (size_t i = 0; i < in.size(); i++)
            for (size_t k = i + 1; k < in.size(); k++) sx_assert(!(in[i] & in[k]), "solid brushes that were chopped still overlap");
        sx_reach("pieces");
    }
    sx_assert(v.leafs > 1, "a tree of one leaf");
    sx_reach("tree");
}

// brush entities: moved by an origin brush, by the target of a hipnotic rotation or scaled; always solid in games that have it so
// params: game, hull, shape, mode (0 plain, 1 origin brush, 2 hipnotic, 3 scaled), split
static bool right_model(int set, const contentflags_t &c)
{
    auto *game = qbsp_options.target_game;
    if (hull_id > 0) return set ? c.is_solid(game) : c.is_empty(game);
    if (!set) return c.is_empty(game);
    if (game_id == 3) return visible_of(kinds[0]) == (c.flags & EWT_ALL_VISIBLE_CONTENTS) && (kinds[0] != SOLID || c.is_solid(game));
    // solid as far as the engine can tell
    return game->contents_to_native(game->contents_remap_for_export(c, gamedef_t::remap_type_t::leaf)) == CONTENTS_SOLID;
}
SX_ENTRY(model)
{
    game_id = (int)sx_param(0);
    hull_id = (int)sx_param(1);
    count = 1;
    int mode = (int)sx_param(3);
    setup(game_id);
    auto &e = map.entities.emplace_back();
    e.epairs.set("classname", mode == 2 ? "rotate_door" : "func_door");
    static const int menu[] = {SOLID, WATER};
    kinds[0] = menu[sx_choice(2, "kind")];
    static const int at[][3] = {{0, 0, 0}, {16, -32, 8}, {-48, 64, 24}, {0, 0, 96}};
    const int *o = at[mode == 0 || mode == 3 ? 0 : sx_choice(4, "origin")];
    solid s = shape((int)sx_param(2));
    int twice = mode == 3 ? 2 : 1;
    e.mapbrushes.push_back(brush_of(s, contentflags_t::make(visible_of(kinds[0])), 0));
    if (mode == 1) {
        auto b = brush_of(box(o[0] - 8, o[1] - 8, o[2] - 4, o[0] + 8, o[1] + 8, o[2] + 4), contentflags_t::make(EWT_INVISCONTENTS_ORIGIN), 0);
        e.mapbrushes.insert(e.mapbrushes.begin() + sx_concretize(sx_choice(2, "first")), std::move(b));
    }
    if (mode == 2) {
        auto &t = map.entities.emplace_back();
        t.epairs.set("classname", "info_rotate");
        t.epairs.set("targetname", "AXIS");
        t.epairs.set("origin", std::to_string(o[0]) + " " + std::to_string(o[1]) + " " + std::to_string(o[2]));
        e.epairs.set("target", "axis");
    }
    if (mode == 3) qbsp_options.scale.set_value(0.5, settings::source::COMMANDLINE);
    ProcessMapBrushes();
    for (auto &p : s.points)
        for (int i = 0; i < 3; i++) p.v[i] = (p.v[i] - o[i]) / twice;
    aabb3d hull{qvec3d{0, 0, 0}, qvec3d{0, 0, 0}};
    if (hull_id > 0) hull = *(qbsp_options.target_game->get_hull_sizes().begin() + hull_id);
    auto h = grown(s, hull);
    bspbrush_t::container brushes;
    size_t clipped = 0;
    auto &m = map.entities[1];
    m.bounds = {};
    Brush_LoadEntity(m, hull_id, brushes, clipped);
    tree_t tree;
    BrushBSP(tree, m, brushes, (tree_split_t)sx_param(4));
    if (mode == 1) {
        qvec3f org{};
        m.epairs.get_vector("origin", org);
        sx_assert(org == qvec3f((float)o[0], (float)o[1], (float)o[2]), "the origin of a model is not the middle of its origin brush");
    }
    if (hull_id > 0 && kinds[0] == WATER && game_id == 3) sx_end();
    point p = any_point();
    verdict v{};
    v.n = 1;
    v.right = right_model;
    v.in[0] = inside(h, p);
    walk(tree.headnode, p, 1, v);
    sx_reach("model");
}
// a region leaves what touches it, an antiregion leaves out what touches it
// params: brushes, regions (1), antiregions
SX_ENTRY(region)
{
    setup(sx_param(3));
    count = (int)sx_param(0);
    int n_anti = (int)sx_param(2);
    bool has_region = sx_param(1) && sx_bool("region");
    static const int boxes[][6] = {{-64, -64, -64, 0, 0, 0}, {32, 32, 32, 64, 64, 64}, {-16, -16, -16, 16, 16, 128}, {100, 0, 0, 140, 40, 40}, {-300, -300, -300, 300, 300, -290}};
    auto pick = [&]() { auto *b = boxes[sx_choice(5, "box")]; return box(b[0], b[1], b[2], b[3], b[4], b[5]); };
    auto bounds = [](const solid &s) { aabb3d b; for (auto &p : s.points) b += qvec3d{(double)p.v[0], (double)p.v[1], (double)p.v[2]}; return b; };
    auto solid_contents = contentflags_t::make(EWT_VISCONTENTS_SOLID);
    std::vector<aabb3d> all, anti;
    aabb3d region;
    if (count) map.entities[0].mapbrushes.reserve(4);
    auto &group = map.entities.emplace_back();
    group.epairs.set("classname", "func_group");
    for (int i = 0; i < count; i++) {
        auto s = pick();
        all.push_back(bounds(s));
        map.entities[i & 1].mapbrushes.push_back(brush_of(s, solid_contents, 0));
    }
    // lights and such, some in the way
    static const int spots[][3] = {{-32, -32, -32}, {48, 48, 48}, {0, 0, 100}, {120, 20, 20}, {500, 0, 0}, {0, 0, -295}};
    std::vector<const int *> spot;
    for (int i = 0; i < (int)sx_param(4); i++) {
        spot.push_back(spots[sx_choice(6, "spot")]);
        auto &e = map.entities.emplace_back();
        e.epairs.set("classname", "light");
        e.epairs.set("number", std::to_string(i));
        e.origin = {(float)spot[i][0], (float)spot[i][1], (float)spot[i][2]};
    }
    if (has_region) {
        auto s = pick();
        region = bounds(s);
        map.region = brush_of(s, solid_contents, 0);
    }
    for (int i = 0; i < n_anti; i++) {
        auto s = pick();
        anti.push_back(bounds(s));
        map.antiregions.push_back(brush_of(s, solid_contents, 0));
    }
    ProcessMapBrushes();
    bspbrush_t::container brushes;
    size_t clipped = 0;
    Brush_LoadEntity(map.entities[0], 0, brushes, clipped);
    std::vector<aabb3d> want;
    for (int pass = 0; pass < 2; pass++)
        for (int i = pass; i < count; i += 2) {
            bool keep = !has_region || !region.disjoint(all[i]);
            for (auto &a : anti) keep &= a.disjoint(all[i]);
            if (keep) want.push_back(all[i]);
        }
    sx_assert(brushes.size() == want.size(), "not exactly the brushes of the region are compiled");
    for (size_t i = 0; i < want.size(); i++) sx_assert(brushes[i]->bounds == want[i], "another brush is compiled");
    std::vector<std::string> lights, left;
    for (int i = 0; i < (int)spot.size(); i++) {
        qvec3d o{(double)spot[i][0], (double)spot[i][1], (double)spot[i][2]};
        bool keep = !has_region || region.containsPoint(o);
        for (auto &a : anti) keep &= !a.containsPoint(o);
        if (keep) lights.push_back(std::to_string(i));
    }
    for (auto &e : map.entities)
        if (e.epairs.get("classname") == "light") left.push_back(e.epairs.get("number"));
    sx_assert(left == lights, "not exactly the entities of the region are kept");
    sx_reach("region");
}
