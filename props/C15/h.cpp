// Outside fill: what no entity can reach is filled, everything else is kept; a leak is found, reported with a way out and fills nothing.
#include "sx.h"
#include "memfs.h"
#include <qbsp/qbsp.hh>
#include <qbsp/map.hh>
#include <qbsp/brush.hh>
#include <qbsp/portals.hh>
#include <qbsp/tree.hh>
#include <qbsp/outside.hh>
#include <common/fs.hh>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>

static constexpr int MAXN = 6;
struct world
{
    int n;
    bool hexen_or_hl, q2;
    tree_t tree;
    node_t leafs[MAXN], inner[MAXN - 1];
    uint64_t flags[MAXN];
    bool seals[MAXN], opaque[MAXN];
    std::vector<portal_t> portals; // the first ones lead outside
    std::vector<std::pair<int, int>> edges; // parallel to portals; -1 is outside
    bspbrush_t::container brushes;
    std::vector<mapface_t> faces;
    std::vector<int> brush_leafs; // mask of leafs each brush is in
};
static const char *names[] = {"empty"};

static void link(portal_t &p)
{
    for (int s = 0; s < 2; s++) {
        p.next[s] = p.nodes[s]->portals;
        p.nodes[s]->portals = &p;
    }
}
static std::vector<std::unique_ptr<side_t>> keep;

static void make_world(world &w, int game, int n, uint32_t extra, bool flip)
{
    static const gamedef_t *games[] = {bspver_q1.game, bspver_h2.game, bspver_hl.game, bspver_q2.game};
    qbsp_options.target_game = games[game];
    w.q2 = game == 3;
    w.n = n;
    for (int k = 0; k + 1 < n; k++) map.add_plane(qplane3d{{1, 0, 0}, 64.0 * (k + 1)});
    for (int i = 0; i < n; i++) {
        auto &l = w.leafs[i];
        auto *d = l.make_leaf();
        // the surroundings of the map are empty
        uint64_t solid = 0, detail = 0, sky = 0, water = 0, clip = 0;
        if (i) {
            solid = sx_range<uint8_t>(0, 1, "solid");
            detail = sx_range<uint8_t>(0, 1, "detail");
            sky = sx_range<uint8_t>(0, 1, "sky");
            water = sx_range<uint8_t>(0, 1, "water");
            clip = sx_range<uint8_t>(0, 1, "clip");
        }
        w.flags[i] = solid * EWT_VISCONTENTS_SOLID | detail * EWT_CFLAG_DETAIL | sky * EWT_VISCONTENTS_SKY | water * EWT_VISCONTENTS_WATER | clip * EWT_INVISCONTENTS_PLAYERCLIP;
        d->contents = contentflags_t::make((contents_int_t)w.flags[i]);
        // the rule of the games, in flags: structural solid seals; sky does outside Quake II; detail solid only for detail fill
        uint64_t is_sky = w.q2 ? 0 : sky;
        w.seals[i] = (solid & (detail ^ 1)) | is_sky;
        w.opaque[i] = solid | is_sky;
    }
    for (int k = 0; k + 1 < n; k++) {
        auto &d = std::get<0>(w.inner[k].data);
        d.planenum = 2 * k;
        d.children[1] = &w.leafs[k];
        d.children[0] = k + 2 < n ? &w.inner[k + 1] : &w.leafs[n - 1];
    }
    w.tree.headnode = &w.inner[0];
    w.tree.portaltype = portaltype_t::TREE;
    w.tree.outside_node.make_leaf();
    w.tree.outside_node.get_leafdata()->contents = qbsp_options.target_game->create_solid_contents();
    w.portals.reserve(32);
    auto add = [&](int a, int b, int plane) {
        // a is behind the plane, b in front
        w.edges.emplace_back(a, b);
        w.portals.emplace_back();
        auto &p = w.portals.back();
        p.plane = map.planes[2 * plane];
        p.onnode = a < 0 || b < 0 ? nullptr : &w.inner[plane];
        p.nodes[0] = b < 0 ? &w.tree.outside_node : &w.leafs[b];
        p.nodes[1] = a < 0 ? &w.tree.outside_node : &w.leafs[a];
        if (a >= 0 && b >= 0 && w.portals.size() % 2 == flip) std::swap(p.nodes[0], p.nodes[1]);
        double x = 64.0 * (plane + 1), y = 128.0 * w.portals.size();
        p.winding = winding_t{qvec3d{x, y - 2, -2}, qvec3d{x, y - 2, 2}, qvec3d{x, y + 2, 2}, qvec3d{x, y + 2, -2}};
        link(p);
    };
    if (flip) add(-1, 0, 0), add(0, -1, 0);
    else add(0, -1, 0), add(-1, 0, 0);
    for (int k = 0; k + 1 < n; k++) add(k, k + 1, k);
    // other neighbours: bit a*n+b of extra
    for (int a = 0; a < n; a++)
        for (int b = a + 1; b < n; b++)
            if (extra >> (a * n + b) & 1) add(a, b, a);
}
// brushes: in leaf i, with a side on every plane of its portals; one more that is in two leafs
static void make_brushes(world &w)
{
    w.faces.reserve(64);
    w.faces.resize(0);
    map.mtexinfos.resize(2);
    map.mtexinfos[1].flags.is_hint = true;
    auto brush = [&](int mask, const std::vector<int> &planes) {
        auto b = std::make_shared<bspbrush_t>();
        b->sides.resize(planes.size());
        for (size_t s = 0; s < planes.size(); s++) {
            w.faces.emplace_back();
            auto &f = w.faces.back();
            f.visible = sx_bool("before");
            f.texinfo = (int)(s + w.brushes.size()) % 3 == 2;
            f.planenum = b->sides[s].planenum = planes[s] * 2 + (s & 1);
            b->sides[s].source = &f;
        }
        b->sides.emplace_back();
        b->sides.back().planenum = planes[0] * 2; // a side of no face
        b->sides.back().source = nullptr;
        for (int i = 0; i < w.n; i++)
            if (mask >> i & 1) w.leafs[i].get_leafdata()->original_brushes.push_back(b.get());
        w.brushes.push_back(b);
        w.brush_leafs.push_back(mask);
    };
    for (int i = 1; i < w.n; i++) {
        std::vector<int> planes{i - 1};
        if (i + 1 < w.n) planes.push_back(i);
        brush(1 << i, planes);
    }
    if (w.n > 2) brush(6, {1, 0});
}
// which faces are seen from leafs that are not opaque
static void check_visible(world &w, const bool *opaque, const char *what)
{
    for (size_t b = 0; b < w.brushes.size(); b++)
        for (auto &s : w.brushes[b]->sides) {
            if (!s.source) continue;
            bool seen = s.source->texinfo == 1;
            for (size_t p = 0; p < w.portals.size(); p++) {
                if (w.portals[p].plane.get_dist() != map.planes[s.planenum & ~1].get_dist()) continue;
                auto [a, c] = w.edges[p];
                if (a < 0 || c < 0) continue; // nothing outside has brushes
                if (w.brush_leafs[b] >> c & 1) seen |= !opaque[a];
                if (w.brush_leafs[b] >> a & 1) seen |= !opaque[c];
            }
            sx_assert(s.source->visible == seen, what);
        }
}
struct entity_at
{
    int leaf, other; // other: on the plane between two leafs
    bool counts;
};
static entity_at add_entity(world &w, int where, const char *cls)
{
    // where: 2i inside leaf i, 2i+1 on the plane between i and i+1, -1 at the origin of the map
    mapentity_t e;
    entity_at at{where / 2, where & 1 ? where / 2 + 1 : where / 2, true};
    e.origin = where < 0 ? qvec3f{} : qvec3f{where & 1 ? 64.f * (where / 2 + 1) : 64.f * (where / 2) + 32.f, 3.f, 0.f};
    e.epairs.set("classname", cls);
    uint32_t exempt = sx_concretize(sx_choice(3, "exempt"));
    if (exempt == 1) e.epairs.set("_nofill", "1");
    if (exempt == 2) e.epairs.set("_lightgrid_hint", "1");
    at.counts = where >= 0 && !exempt;
    map.entities.push_back(std::move(e));
    return at;
}
// the leafs the entity may count as being in, as a mask of conditions
static void occupy(const world &w, const entity_at &e, bool prefer_sealing, bool *occ)
{
    if (!e.counts) return;
    if (e.leaf == e.other) {
        occ[e.leaf] |= !w.seals[e.leaf];
        return;
    }
    // on a plane: in a wall if either side is one, the other way around in the expanded hulls
    bool a = w.seals[e.leaf], b = w.seals[e.other];
    if (prefer_sealing) {
        occ[e.leaf] |= !a & !b;
        occ[e.other] |= !a & !b;
    } else {
        occ[e.leaf] |= !a;
        occ[e.other] |= !b;
    }
}
static void flood(const world &w, const bool *closed, bool *reached)
{
    for (int k = 0; k < w.n; k++)
        for (auto [a, b] : w.edges) {
            if (a < 0 || b < 0) continue;
            bool open = !closed[a] & !closed[b];
            reached[a] |= reached[b] & open;
            reached[b] |= reached[a] & open;
        }
}
static bool pts(const memfs::file *f, std::vector<std::array<double, 3>> &out)
{
    std::string s(f->data.begin(), f->data.end());
    std::vector<double> v;
    size_t i = 0;
    while (i < s.size()) {
        if (s[i] == ' ' || s[i] == '\n') {
            i++;
            continue;
        }
        bool neg = s[i] == '-';
        if (neg) i++;
        if (i >= s.size() || s[i] < '0' || s[i] > '9') return false;
        double d = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') d = d * 10 + (s[i++] - '0');
        if (i < s.size() && s[i] == '.') {
            double q = 0.1;
            for (i++; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++, q /= 10) d += q * (s[i] - '0');
        }
        v.push_back(neg ? -d : d);
    }
    if (v.size() % 3) return false;
    for (size_t k = 0; k + 2 < v.size(); k += 3) out.push_back({v[k], v[k + 1], v[k + 2]});
    return true;
}
// params: game, leafs, other neighbours, fill type, hull (-1 none), entity places, flip
SX_ENTRY(fill)
{
    world w{};
    make_world(w, (int)sx_param(0), (int)sx_param(1), (uint32_t)sx_param(2), sx_param(6));
    make_brushes(w);
    bool outside = sx_param(3) == 2;
    qbsp_options.filltype.set_value(sx_param(3) == 2 ? settings::filltype_t::OUTSIDE : sx_param(3) == 1 ? settings::filltype_t::INSIDE : settings::filltype_t::AUTO, settings::source::COMMANDLINE);
    qbsp_options.leakdist.set_value(0, settings::source::COMMANDLINE);
    bool keepprt = sx_bool("keepprt");
    qbsp_options.keepprt.set_value(keepprt, settings::source::COMMANDLINE);
    qbsp_options.bsp_path = "m.bsp";
    memfs::put("m.prt", "x", 1);
    hull_index_t hull;
    if (sx_param(4) >= 0) hull = (int)sx_param(4);
    bool prefer = sx_param(4) <= 0;
    map.entities.clear();
    map.entities.emplace_back(); // the world
    uint32_t places = (uint32_t)sx_param(5); // four bits each, 15: none, 14: at the origin
    std::vector<entity_at> ents;
    for (int i = 0; i < 3; i++) {
        int pl = places >> (4 * i) & 15;
        if (pl != 15) ents.push_back(add_entity(w, pl == 14 ? -1 : pl, i ? "light" : "info_player_start"));
    }
    bool occ[MAXN] = {}, in[MAXN], reached[MAXN], any = false;
    for (auto &e : ents) occupy(w, e, prefer, occ);
    for (int i = 0; i < w.n; i++) in[i] = occ[i], any |= occ[i];
    flood(w, w.seals, in);
    bool leak = in[0]; // the void around the map
    bool out[MAXN] = {true};
    flood(w, w.seals, out);
    std::vector<uint8_t> before;
    for (auto &f : w.faces) before.push_back(f.visible);

    bool filled = FillOutside(w.tree, hull, w.brushes);
    sx_assert(filled == (any & !leak), "the map is filled exactly when some entity is in it and none can get out");
    if (!filled) {
        for (int i = 0; i < w.n; i++) sx_assert(w.leafs[i].get_leafdata()->contents.flags == (contents_int_t)w.flags[i], "a map that leaks or is empty is left as it is");
        size_t k = 0;
        for (auto &f : w.faces) sx_assert(f.visible == before[k++], "as are its faces");
        sx_assert(map.leakfile == leak, "a leak is noted");
        const memfs::file *f = memfs::find("m.pts");
        sx_assert((f != nullptr) == leak, "a leak line is written for a leak");
        if (!leak) {
            sx_assert(memfs::find("m.prt") != nullptr, "no leak removes no portal file");
            sx_reach("empty");
            return;
        }
        sx_assert((memfs::find("m.prt") != nullptr) == keepprt, "the portal file of a leaking map is removed");
        std::vector<std::array<double, 3>> pt;
        sx_assert(pts(f, pt) && pt.size() % 2 == 0, "the leak line is made of points");
        // one of the entities, then portal after portal, each a way on, to the void
        bool at[MAXN] = {};
        if (pt.empty()) {
            sx_assert(occ[0], "no line is needed for an entity in the void");
        } else {
            bool known = false;
            for (auto &e : ents) {
                float x = e.leaf == e.other ? 64.f * e.leaf + 32.f : 64.f * (e.leaf + 1);
                if (!e.counts || pt[0][0] != x || pt[0][1] != 3) continue;
                bool one[MAXN] = {};
                occupy(w, e, prefer, one);
                for (int i = 0; i < w.n; i++) at[i] |= one[i], known |= one[i];
            }
            sx_assert(known, "the line starts at an entity in the map");
        }
        for (size_t s = 0; s + 1 < pt.size(); s += 2) {
            if (s) sx_assert(pt[s] == pt[s - 1], "the line is one line");
            bool next[MAXN] = {}, through = false;
            for (size_t p = 2; p < w.portals.size(); p++) {
                auto [a, b] = w.edges[p];
                if (pt[s + 1][0] != 64.0 * (w.portals[p].plane.get_dist() / 64) || pt[s + 1][1] != 128.0 * (p + 1)) continue;
                bool open = !w.seals[a] & !w.seals[b];
                through |= open & (at[a] | at[b]);
                next[b] |= open & at[a];
                next[a] |= open & at[b];
            }
            sx_assert(through, "every step of the line goes through a portal that does not seal, from where the line was");
            for (int i = 0; i < w.n; i++) at[i] = next[i];
        }
        if (!pt.empty()) sx_assert(at[0], "the line ends in the void");
        memfs::put("m.pts", "first", 5);
        if (FillOutside(w.tree, hull, w.brushes)) sx_fail("a map that leaks is never filled");
        f = memfs::find("m.pts");
        sx_assert(f && std::string(f->data.begin(), f->data.end()) == "first", "only the first leak is reported");
        sx_reach("leak");
        return;
    }
    bool opaque[MAXN];
    uint64_t solid = EWT_VISCONTENTS_SOLID;
    for (int i = 0; i < w.n; i++) {
        bool fillit = (outside ? out[i] : !in[i]) & !w.seals[i];
        uint64_t want = fillit ? solid : w.flags[i];
        sx_assert((uint64_t)w.leafs[i].get_leafdata()->contents.flags == want, "what cannot be reached becomes solid, all else stays as it is");
        opaque[i] = w.opaque[i] | fillit;
    }
    check_visible(w, opaque, "faces are kept exactly when something that is not solid is next to them, or they are hints");
    sx_assert(!map.leakfile && !memfs::find("m.pts") && memfs::find("m.prt"), "a sealed map has no leak");
    sx_reach("filled");
}
// detail fill after the outside fill
SX_ENTRY(detail_fill)
{
    world w{};
    make_world(w, (int)sx_param(0), (int)sx_param(1), (uint32_t)sx_param(2), false);
    make_brushes(w);
    hull_index_t hull = (int)sx_param(3);
    map.entities.clear();
    map.entities.emplace_back();
    auto e = add_entity(w, (int)sx_param(4), "light");
    bool occ[MAXN] = {}, any = false;
    if (e.counts && e.leaf == e.other) occ[e.leaf] |= !w.seals[e.leaf]; // inside detail it reaches nothing
    if (e.counts && e.leaf != e.other) {
        // on the surface of something it is on the open side
        sx_assume(!w.opaque[e.leaf] | !w.opaque[e.other]);
        occ[e.leaf] |= !w.opaque[e.leaf];
        occ[e.other] |= !w.opaque[e.other];
    }
    bool in[MAXN];
    for (int i = 0; i < w.n; i++) in[i] = occ[i], any |= occ[i];
    flood(w, w.opaque, in);
    std::vector<uint8_t> before;
    for (auto &f : w.faces) before.push_back(f.visible);
    FillDetail(w.tree, hull, w.brushes);
    bool opaque[MAXN];
    for (int i = 0; i < w.n; i++) {
        bool fillit = any & !in[i] & !w.opaque[i];
        uint64_t got = (uint64_t)w.leafs[i].get_leafdata()->contents.flags;
        sx_assert(got == (fillit ? (uint64_t)(EWT_VISCONTENTS_SOLID | EWT_CFLAG_DETAIL) : w.flags[i]), "pockets that no entity can reach become detail solid, all else stays as it is");
        opaque[i] = w.opaque[i] | fillit;
    }
    if (any) check_visible(w, opaque, "faces are kept exactly when something that is not solid is next to them");
    else {
        size_t k = 0;
        for (auto &f : w.faces) sx_assert(f.visible == before[k++], "without entities nothing changes");
    }
    sx_reach("detail");
}
// brush models
SX_ENTRY(model)
{
    world w{};
    make_world(w, (int)sx_param(0), (int)sx_param(1), (uint32_t)sx_param(2), false);
    make_brushes(w);
    FillBrushEntity(w.tree, 0, w.brushes);
    for (int i = 0; i < w.n; i++) sx_assert(w.leafs[i].get_leafdata()->contents.flags == (contents_int_t)w.flags[i], "nothing is filled");
    check_visible(w, w.opaque, "faces of models are kept exactly when something that is not solid is next to them");
    sx_reach("model");
}
