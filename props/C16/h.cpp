// qbsp's outputs describe one and the same tree: portal file, nodes, leafs, clip nodes, areas and visible sides.
#include "sx.h"
#include "memfs.h"
#include <qbsp/prtfile.cc>
#include <qbsp/map.hh>
#include <qbsp/writebsp.hh>
#include <common/prtfile.hh>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>

static constexpr int MAXNODES = 24;
// in preorder: N node, D detail separator, L leaf
static const char *shapes[] = {"NLNLNLL", "NNLLNLL", "NDLLDLL", "NLDLNLL", "DLNLL", "NDLDLLNLL", "NLL", "L", "NDLLL", "NNLLDLL"};
static int num_kinds = 8;

struct world
{
    const gamedef_t *game;
    int id; // 0 Quake, 1 Hexen II, 2 Half-Life, 3 Quake II
    int n = 0;
    node_t nodes[MAXNODES];
    bool separator[MAXNODES];
    uint64_t flags[MAXNODES]; // of leafs
    std::vector<node_t *> clusters;
    tree_t tree;
    std::vector<portal_t> portals;
    bspbrush_t::container brushes;
};
static int index_of(const world &w, const node_t *n) { return (int)(n - w.nodes); }

// kinds of contents that leafs of a finished tree have
static uint64_t kind(int id, const char *name)
{
    static const uint64_t q1[] = {EWT_VISCONTENTS_EMPTY, EWT_VISCONTENTS_SOLID, EWT_VISCONTENTS_SOLID | EWT_CFLAG_DETAIL, EWT_VISCONTENTS_WATER, EWT_VISCONTENTS_DETAIL_WALL | EWT_CFLAG_DETAIL,
        EWT_VISCONTENTS_WATER | EWT_INVISCONTENTS_ILLUSIONARY_VISBLOCKER, EWT_VISCONTENTS_SKY, EWT_VISCONTENTS_MIST | EWT_CFLAG_DETAIL};
    static const uint64_t q2[] = {EWT_VISCONTENTS_EMPTY, EWT_VISCONTENTS_SOLID, EWT_VISCONTENTS_SOLID | EWT_CFLAG_DETAIL, EWT_VISCONTENTS_WATER | EWT_CFLAG_TRANSLUCENT, EWT_VISCONTENTS_SLIME,
        EWT_INVISCONTENTS_AREAPORTAL, EWT_VISCONTENTS_WINDOW | EWT_CFLAG_TRANSLUCENT | EWT_CFLAG_DETAIL, EWT_VISCONTENTS_LAVA | EWT_INVISCONTENTS_PLAYERCLIP};
    return (id == 3 ? q2 : q1)[num_kinds > 1 ? sx_choice(num_kinds, name) : 0];
}
static node_t *build(world &w, const char *&s, bool detail, int depth)
{
    node_t *node = &w.nodes[w.n];
    int i = w.n++;
    w.separator[i] = false;
    node->visleafnum = node->viscluster = -7;
    node->bounds = aabb3d(qvec3d{-100.0 - i, -50.25, 0.5 - i}, qvec3d{100.5 + i, 60.0, 7.0 + i});
    char c = *s++;
    if (c == 'L') {
        auto *l = node->make_leaf();
        w.flags[i] = kind(w.id, "contents");
        l->contents = contentflags_t::make((contents_int_t)w.flags[i]);
        l->area = 10 + i;
        l->firstleafbrush = 3 * i;
        l->numleafbrushes = i + 1;
        return node;
    }
    detail |= c == 'D';
    w.separator[i] = detail;
    auto *d = node->get_nodedata();
    d->planenum = 2 * depth;
    d->detail_separator = detail;
    d->firstface = 5 * i;
    d->numfaces = i + 2;
    node_t *front = build(w, s, detail, depth + 1), *back = build(w, s, detail, depth + 2);
    d->children[0] = front;
    d->children[1] = back;
    return node;
}
static void init(world &w, int id, int shape)
{
    static const gamedef_t *games[] = {bspver_q1.game, bspver_h2.game, bspver_hl.game, bspver_q2.game};
    w.id = id;
    w.game = qbsp_options.target_game = games[id];
    qbsp_options.bsp_path = "m.bsp";
    for (int k = 0; k < 12; k++) map.add_plane(k % 3 == 0 ? qplane3d{{1, 0, 0}, 16.0 * k} : k % 3 == 1 ? qplane3d{{0, 1, 0}, -8.5 * k} : qplane3d{{0.6, 0, 0.8}, 4.0 + k});
    const char *s = shapes[shape];
    w.tree.headnode = build(w, s, false, 0);
}
static bool solid_flags(uint64_t f) { return (f & EWT_VISCONTENTS_SOLID) != 0; }

// what PruneNodes should make of it: a leaf of solid where everything below is solid
static bool all_solid(const world &w, const char *&s, int &i)
{
    int me = i++;
    if (*s++ == 'L') return solid_flags(w.flags[me]) | (w.id != 3 && (w.flags[me] & EWT_VISCONTENTS_DETAIL_WALL));
    bool a = all_solid(w, s, i), b = all_solid(w, s, i);
    return a & b;
}
SX_ENTRY(prune)
{
    world w{};
    num_kinds = (int)sx_param(3);
    init(w, (int)sx_param(0), (int)sx_param(1));
    // brushes of leafs are kept, each once
    std::vector<mapbrush_t> mb(3);
    for (int b = 0; b < 3; b++) {
        w.brushes.push_back(std::make_shared<bspbrush_t>());
        w.brushes.back()->mapbrush = &mb[b];
    }
    for (int i = 0; i < w.n; i++)
        if (auto *l = w.nodes[i].get_leafdata())
            for (int b = 0; b < 3; b++)
                if ((i * 7 + (int)sx_param(2)) >> b & 1) l->original_brushes.push_back(w.brushes[b].get());
    uint8_t brushes[MAXNODES] = {};
    for (int i = w.n - 1; i >= 0; i--) {
        if (auto *l = w.nodes[i].get_leafdata()) {
            for (auto *b : l->original_brushes) brushes[i] |= 1 << (b->mapbrush - mb.data());
        } else {
            auto *d = w.nodes[i].get_nodedata();
            brushes[i] = brushes[index_of(w, d->children[0])] | brushes[index_of(w, d->children[1])];
        }
    }
    node_t *child[MAXNODES][2] = {};
    for (int i = 0; i < w.n; i++)
        if (auto *d = w.nodes[i].get_nodedata()) child[i][0] = d->children[0], child[i][1] = d->children[1];
    PruneNodes(w.tree.headnode);
    // every node of the old tree that is still reached
    std::vector<node_t *> todo{w.tree.headnode};
    while (!todo.empty()) {
        node_t *n = todo.back();
        todo.pop_back();
        int i = index_of(w, n);
        const char *s = shapes[sx_param(1)];
        int at = 0;
        // the subtree's text starts at the same index
        s += i;
        at = i;
        bool solid = all_solid(w, s, at);
        if (auto *d = n->get_nodedata()) {
            sx_assert(!solid, "what is all solid becomes one leaf");
            sx_assert(d->children[0] == child[i][0] && d->children[1] == child[i][1], "what is not all solid stays");
            todo.push_back(d->children[0]);
            todo.push_back(d->children[1]);
        } else {
            auto *l = n->get_leafdata();
            bool was_leaf = !child[i][0];
            sx_assert(was_leaf | solid, "nothing but solid is merged");
            bool wall = w.id != 3 && (w.flags[i] & EWT_VISCONTENTS_DETAIL_WALL);
            uint64_t want = !was_leaf || wall ? (uint64_t)EWT_VISCONTENTS_SOLID : w.flags[i];
            sx_assert((uint64_t)l->contents.flags == want, "leafs keep their contents, merged ones are solid");
            uint8_t has = 0;
            size_t count = 0;
            for (auto *b : l->original_brushes) has |= 1 << (b->mapbrush - mb.data()), count++;
            sx_assert(has == brushes[i] && count == (size_t)__builtin_popcount(has), "leafs keep their brushes, each once");
        }
    }
    sx_reach("prune");
}

static void find_clusters(world &w, node_t *n)
{
    auto *d = n->get_nodedata();
    if (d && !d->detail_separator) {
        find_clusters(w, d->children[0]);
        find_clusters(w, d->children[1]);
        return;
    }
    w.clusters.push_back(n);
}
static void leafs_of(node_t *n, std::vector<node_t *> &out)
{
    if (auto *d = n->get_nodedata()) {
        leafs_of(d->children[0], out);
        leafs_of(d->children[1], out);
    } else
        out.push_back(n);
}
// contents of a cluster: everything in it, solid only when all of it is
static uint64_t together(const world &w, node_t *c)
{
    std::vector<node_t *> leafs;
    leafs_of(c, leafs);
    uint64_t all = 0, solid = EWT_VISCONTENTS_SOLID;
    for (auto *l : leafs) {
        uint64_t f = (uint64_t)l->get_leafdata()->contents.flags;
        all |= f;
        solid &= f;
    }
    return (all & ~(uint64_t)EWT_VISCONTENTS_SOLID) | solid;
}
static void compare(world &w, node_t *n, int32_t child, std::vector<int> &seen)
{
    auto &bsp = map.bsp;
    if (auto *d = n->get_nodedata()) {
        sx_assert(child >= 0 && (size_t)child < bsp.dnodes.size(), "nodes are written as nodes");
        auto &o = bsp.dnodes[child];
        auto &p = bsp.dplanes.at(o.planenum);
        auto &mp = map.planes[d->planenum];
        sx_assert(p.normal == qvec3f(mp.get_normal()) && p.dist == (float)mp.get_dist(), "with their plane");
        sx_assert(o.firstface == (uint32_t)d->firstface && o.numfaces == (uint32_t)d->numfaces, "and their faces");
        for (int k = 0; k < 3; k++) sx_assert(o.mins[k] <= n->bounds.mins()[k] && o.maxs[k] >= n->bounds.maxs()[k] && o.mins[k] > n->bounds.mins()[k] - 1 && o.maxs[k] < n->bounds.maxs()[k] + 1, "bounds contain the node");
        sx_assert(o.children[0] != o.children[1], "the sides of a node differ");
        compare(w, d->children[0], o.children[0], seen);
        compare(w, d->children[1], o.children[1], seen);
        return;
    }
    auto *l = n->get_leafdata();
    sx_assert(child < 0 && (size_t)(-1 - child) < bsp.dleafs.size(), "leafs are written as leafs");
    int num = -1 - child;
    bool solid = solid_flags((uint64_t)l->contents.flags);
    if (w.id != 3 && solid) {
        sx_assert(num == 0, "all solid is leaf 0");
        return;
    }
    sx_assert(num > 0, "only solid is leaf 0");
    seen.push_back(num);
    auto &o = bsp.dleafs[num];
    sx_assert(o.contents == w.game->contents_to_native(w.game->contents_remap_for_export(l->contents, gamedef_t::remap_type_t::leaf)), "with their contents");
    sx_assert(o.cluster == n->viscluster, "cluster");
    if (w.id != 3) sx_assert(num == n->visleafnum + 1, "the number in the portal file is the number in the bsp");
    if (w.id == 3 && !solid) sx_assert(o.area == (map.leakfile ? 1 : l->area), "area");
    if (w.id == 3 && solid) sx_assert(o.area == 0 && o.cluster == -1, "solid is in no area and cluster");
    sx_assert(o.firstleafbrush == l->firstleafbrush && o.numleafbrushes == l->numleafbrushes, "brushes");
    sx_assert(o.visofs == -1, "and no visibility yet");
    for (int k = 0; k < 3; k++) sx_assert(o.mins[k] <= n->bounds.mins()[k] && o.maxs[k] >= n->bounds.maxs()[k] && o.mins[k] > n->bounds.mins()[k] - 1 && o.maxs[k] < n->bounds.maxs()[k] + 1, "bounds contain the leaf");
    // the faces that were written, in order
    std::vector<uint32_t> want;
    for (auto *f : l->markfaces) {
        if (map.mtexinfos[f->texinfo].flags.is_nodraw && !qbsp_options.includeskip.value() && !(w.id == 3 && (map.mtexinfos[f->texinfo].flags.native & Q2_SURF_LIGHT))) continue;
        for (auto &fr : f->fragments)
            if (fr.outputnumber) want.push_back((uint32_t)*fr.outputnumber);
    }
    sx_assert(o.nummarksurfaces == want.size() && o.firstmarksurface + want.size() <= bsp.dleaffaces.size(), "faces are counted");
    for (size_t i = 0; i < want.size(); i++) sx_assert(bsp.dleaffaces[o.firstmarksurface + i] == want[i], "and listed");
}
// params: game, shape, extra portals, forceprt1 and others, kinds of contents
SX_ENTRY(written)
{
    world w{};
    num_kinds = (int)sx_param(4);
    init(w, (int)sx_param(0), (int)sx_param(1));
    bool forceprt1 = sx_param(3) & 1;
    qbsp_options.forceprt1.set_value(forceprt1, settings::source::COMMANDLINE);
    bool transwater = sx_bool("transwater");
    qbsp_options.transwater.set_value(transwater, settings::source::COMMANDLINE);
    PruneNodes(w.tree.headnode);
    find_clusters(w, w.tree.headnode);
    int nc = (int)w.clusters.size();
    w.portals.reserve(32);
    struct expect_t
    {
        int front, back;
        bool flip, sees;
        double tag;
        node_t *f, *b;
    };
    std::vector<expect_t> expect;
    auto add = [&](int a, int b) {
        w.portals.emplace_back();
        auto &p = w.portals.back();
        int k = (int)w.portals.size();
        p.plane = map.planes[0];
        p.onnode = w.tree.headnode;
        bool swap = (k + sx_param(3) / 2) % 3 == 0, flip = k == 1 ? sx_concretize(sx_choice(2, "winding turned")) : (k + nc) % 2;
        p.nodes = {w.clusters[swap ? b : a], w.clusters[swap ? a : b]};
        for (int s = 0; s < 2; s++) p.next[s] = p.nodes[s]->portals, p.nodes[s]->portals = &p;
        double y = 100.0 * k, q = k % 2 ? 12.5 : 0.1;
        qvec3d v[] = {{0, y, -8}, {0, y, 8}, {0, y + q, 8}, {0, y + q, -8}};
        if (qv::dot(winding_t{v[0], v[1], v[2], v[3]}.plane().normal, qvec3d{1, 0, 0}) < 0) std::swap(v[1], v[3]);
        if (flip) std::swap(v[1], v[3]);
        p.winding = winding_t{v[0], v[1], v[2], v[3]};
        uint64_t f0 = together(w, p.nodes[0]), f1 = together(w, p.nodes[1]);
        bool sees = !((f0 | f1) & EWT_INVISCONTENTS_ILLUSIONARY_VISBLOCKER) && w.game->portal_can_see_through(contentflags_t::make((contents_int_t)f0), contentflags_t::make((contents_int_t)f1), transwater);
        expect.push_back({0, 0, flip, sees, y, p.nodes[0], p.nodes[1]});
    };
    uint32_t extra = (uint32_t)sx_param(2);
    for (int a = 0; a + 1 < nc; a++) add(a, a + 1);
    for (int a = 0; a < nc; a++)
        if (extra >> a & 1 && a + 2 < nc) add(a, a + 2);
    // a portal that leads out of the map
    if (nc) {
        w.portals.emplace_back();
        auto &p = w.portals.back();
        p.plane = map.planes[0];
        w.tree.outside_node.make_leaf()->contents = w.game->create_solid_contents();
        p.nodes = {w.clusters[0], &w.tree.outside_node};
        for (int s = 0; s < 2; s++) p.next[s] = p.nodes[s]->portals, p.nodes[s]->portals = &p;
        p.winding = winding_t{{0, 0, 0}, {0, 1, 0}, {0, 1, 1}};
    }
    // faces
    std::vector<face_t> faces(4);
    map.mtexinfos.resize(3);
    map.mtexinfos[1].flags.is_nodraw = true;
    map.mtexinfos[2].flags.is_nodraw = true;
    map.mtexinfos[2].flags.native = Q2_SURF_LIGHT;
    bool skip = sx_param(3) & 2;
    qbsp_options.includeskip.set_value(skip, settings::source::COMMANDLINE);
    for (int i = 0; i < 4; i++) {
        faces[i].texinfo = i % 3;
        faces[i].fragments.resize(i);
        for (int k = 0; k < i; k++)
            if ((i + k) % 3) faces[i].fragments[k].outputnumber = 20 + 5 * i + k;
    }
    std::vector<node_t *> leafs;
    leafs_of(w.tree.headnode, leafs);
    for (size_t i = 0; i < leafs.size(); i++)
        for (int k = 0; k < 4; k++)
            if ((i * 5 + 3) >> k & 1) leafs[i]->get_leafdata()->markfaces.push_back(&faces[(k + i) % 4]);
    map.leakfile = sx_param(3) & 4;

    portal_state_t state{};
    WritePortalfile(w.tree.headnode, state);

    // numbers: leafs and clusters that are not solid, in order
    int nextleaf = 0, nextcluster = 0;
    std::vector<int> cluster_of; // of each leaf
    bool uses_detail = false;
    for (auto *c : w.clusters) {
        std::vector<node_t *> in;
        leafs_of(c, in);
        bool node = c->get_nodedata() != nullptr;
        bool any = false;
        for (auto *l : in) {
            if (solid_flags((uint64_t)l->get_leafdata()->contents.flags)) {
                sx_assert(l->visleafnum == -1 && l->viscluster == -1, "solid has no number");
                continue;
            }
            any = true;
            sx_assert(l->visleafnum == nextleaf++ && l->viscluster == nextcluster, "leafs and clusters are numbered in order");
            cluster_of.push_back(nextcluster);
        }
        if (any) {
            sx_assert(c->viscluster == nextcluster, "a cluster has its number");
            nextcluster++;
        }
        uses_detail |= node;
    }
    const bspversion_t *ver = w.id == 3 ? &bspver_q2 : w.id == 1 ? &bspver_h2 : w.id == 2 ? &bspver_hl : &bspver_q1;
    auto prt = LoadPrtFile("m.prt", ver);
    bool by_cluster = w.id == 3 || uses_detail;
    sx_assert(prt.portalleafs == nextcluster, "vis reads the number of clusters");
    if (w.id != 3 && !(uses_detail && forceprt1)) {
        sx_assert(prt.portalleafs_real == nextleaf && prt.dleafinfos.size() == (size_t)nextleaf + 1, "and of leafs");
        for (int i = 0; i < nextleaf; i++) sx_assert(prt.dleafinfos[i + 1].cluster == cluster_of[i], "and the cluster of each leaf");
    }
    size_t count = 0;
    for (auto &e : expect) {
        int found = 0;
        for (auto &p : prt.portals) {
            if (p.winding[0][1] != e.tag && p.winding.size() == 4 && p.winding[2][1] != e.tag) continue;
            if (p.winding[0][1] >= e.tag + 50 || p.winding[0][1] < e.tag) continue;
            found++;
            int f = by_cluster ? e.f->viscluster : e.f->visleafnum, b = by_cluster ? e.b->viscluster : e.b->visleafnum;
            // vis takes the first leaf to be in front of the winding
            sx_assert(p.leafnums[0] == (e.flip ? b : f) && p.leafnums[1] == (e.flip ? f : b), "a portal joins the clusters it lies between, the one in front first");
            auto &orig = w.portals[(int)(e.tag / 100) - 1].winding;
            for (int k = 0; k < 4; k++)
                for (int c = 0; c < 3; c++) sx_assert(p.winding[k][c] == orig[k][c], "and keeps its winding");
        }
        sx_assert(found == (e.sees ? 1 : 0), "exactly the portals that can be seen through are written");
        count += found;
    }
    sx_assert(count == prt.portals.size(), "and no others");

    // the bsp
    BeginBSPFile();
    mapentity_t ent;
    ent.outputmodelnumber = 0;
    map.bsp.dmodels.resize(1);
    ExportDrawNodes(ent, w.tree.headnode, 4);
    std::vector<int> seen;
    auto &m = map.bsp.dmodels[0];
    sx_assert(m.firstface == 4 && m.numfaces == (int)map.bsp.dfaces.size() - 4, "a model has its faces");
    sx_assert(map.bsp.dleafs[0].contents == w.game->contents_to_native(contentflags_t::make(EWT_VISCONTENTS_SOLID)), "leaf 0 is solid");
    if (w.tree.headnode->is_leaf()) {
        sx_assert(map.bsp.dleafs.size() == 2, "a model of one leaf has that leaf");
    } else {
        compare(w, w.tree.headnode, m.headnode[0], seen);
        sx_assert(m.visleafs == (int)seen.size() && map.bsp.dleafs.size() == seen.size() + 1, "leafs are counted");
        for (size_t i = 0; i < seen.size(); i++)
            for (size_t k = 0; k < i; k++) sx_assert(seen[i] != seen[k], "every leaf is written once");
        for (int k = 0; k < 3; k++) {
            double pad = w.id == 3 ? 24 : 25;
            sx_assert(m.mins[k] == (float)(w.tree.headnode->bounds.mins()[k] + pad) && m.maxs[k] == (float)(w.tree.headnode->bounds.maxs()[k] - pad), "models have their bounds without the padding");
        }
    }
    sx_reach("written");
}
// clipping hulls
static void compare_clip(world &w, node_t *n, int32_t child)
{
    if (auto *l = n->get_leafdata()) {
        sx_assert(child == w.game->contents_to_native(l->contents) && child < 0, "leafs of a clipping hull are contents");
        return;
    }
    auto *d = n->get_nodedata();
    sx_assert(child >= 0 && (size_t)child < map.bsp.dclipnodes.size(), "nodes of a clipping hull are clip nodes");
    auto &o = map.bsp.dclipnodes[child];
    auto &p = map.bsp.dplanes.at(o.planenum);
    sx_assert(p.normal == qvec3f(map.planes[d->planenum].get_normal()) && p.dist == (float)map.planes[d->planenum].get_dist() && p.type == (int)map.planes[d->planenum].get_type(), "with their plane");
    compare_clip(w, d->children[0], o.children[0]);
    compare_clip(w, d->children[1], o.children[1]);
}
SX_ENTRY(clip)
{
    world w{};
    num_kinds = 1;
    init(w, (int)sx_param(0), (int)sx_param(1));
    for (int i = 0; i < w.n; i++)
        if (auto *l = w.nodes[i].get_leafdata()) {
            static const uint64_t k[] = {EWT_VISCONTENTS_EMPTY, EWT_VISCONTENTS_SOLID, EWT_VISCONTENTS_WATER, EWT_VISCONTENTS_LAVA, EWT_VISCONTENTS_SKY};
            w.flags[i] = k[sx_choice((int)sx_param(2), "contents")];
            l->contents = contentflags_t::make((contents_int_t)w.flags[i]);
        }
    PruneNodes(w.tree.headnode);
    map.bsp.dmodels.resize(2);
    mapentity_t ent;
    ent.outputmodelnumber = 1;
    map.bsp.dclipnodes.resize(3); // of an earlier model
    ExportClipNodes(ent, w.tree.headnode, 1);
    compare_clip(w, w.tree.headnode, map.bsp.dmodels[1].headnode[1]);
    for (size_t i = 0; i < map.bsp.dplanes.size(); i++)
        for (size_t k = 0; k < i; k++) sx_assert(!(map.bsp.dplanes[i].normal == map.bsp.dplanes[k].normal && map.bsp.dplanes[i].dist == map.bsp.dplanes[k].dist), "planes are written once");
    sx_reach("clip");
}
// areas of Quake II: leafs in a row and further neighbours
SX_ENTRY(areas)
{
    world w{};
    w.id = 3;
    w.game = qbsp_options.target_game = bspver_q2.game;
    qbsp_options.bsp_path = "m.bsp";
    int n = (int)sx_param(0);
    uint32_t extra = (uint32_t)sx_param(1);
    for (int k = 0; k < n; k++) map.add_plane(qplane3d{{1, 0, 0}, 16.0 * k});
    map.entities.resize(3);
    map.entities[0].epairs.set("classname", "worldspawn");
    for (int e = 1; e < 3; e++) map.entities[e].epairs.set("classname", "func_areaportal"), map.entities[e].areaportalnum = e;
    std::vector<mapbrush_t> mb(2);
    for (int b = 0; b < 2; b++) {
        mb[b].func_areaportal = &map.entities[b + 1];
        w.brushes.push_back(std::make_shared<bspbrush_t>());
        w.brushes.back()->mapbrush = &mb[b];
    }
    // inner nodes 0..n-2, leafs n-1..
    node_t *leaf[8];
    static const uint64_t kinds[] = {EWT_VISCONTENTS_EMPTY, EWT_VISCONTENTS_SOLID, EWT_INVISCONTENTS_AREAPORTAL, EWT_VISCONTENTS_SOLID | EWT_CFLAG_DETAIL};
    uint64_t f[8];
    bool reached[8];
    for (int i = 0; i < n; i++) {
        leaf[i] = &w.nodes[n - 1 + i];
        auto *l = leaf[i]->make_leaf();
        f[i] = kinds[sx_choice(4, "contents")];
        l->contents = contentflags_t::make((contents_int_t)f[i]);
        reached[i] = sx_bool("occupied");
        l->occupied = reached[i] ? 1 : 0;
        // which areaportal entity the leaf's brush is of
        l->original_brushes.push_back(w.brushes[sx_param(2) >> i & 1].get());
        leaf[i]->bounds = aabb3d(qvec3d{16.0 * i, 0, 0}, qvec3d{16.0 * i + 16, 16, 16});
    }
    for (int k = 0; k + 1 < n; k++) {
        auto *d = w.nodes[k].get_nodedata();
        d->planenum = 2 * (k + 1);
        d->children[1] = leaf[k];
        d->children[0] = k + 2 < n ? &w.nodes[k + 1] : leaf[n - 1];
    }
    w.tree.headnode = &w.nodes[0];
    w.tree.portaltype = portaltype_t::TREE;
    w.portals.reserve(32);
    std::vector<std::pair<int, int>> edges;
    auto add = [&](int a, int b) {
        edges.emplace_back(a, b);
        w.portals.emplace_back();
        auto &p = w.portals.back();
        p.onnode = w.tree.headnode;
        p.nodes = {leaf[b], leaf[a]};
        if (w.portals.size() % 2) std::swap(p.nodes[0], p.nodes[1]);
        for (int s = 0; s < 2; s++) p.next[s] = p.nodes[s]->portals, p.nodes[s]->portals = &p;
    };
    for (int k = 0; k + 1 < n; k++) add(k, k + 1);
    for (int a = 0; a + 2 < n; a++)
        if (extra >> a & 1) add(a, a + 2);
    map.leakfile = sx_param(3);
    EmitAreaPortals(w.tree);
    auto &bsp = map.bsp;
    sx_assert(bsp.dareaportals.size() >= 1 && bsp.dareaportals[0].portalnum == 0 && bsp.dareaportals[0].otherarea == 0, "areaportal 0 is unused");
    if (map.leakfile) {
        sx_assert(bsp.dareas.size() == 2 && bsp.dareaportals.size() == 1, "a map that leaks is one area");
        for (auto &e : map.entities) sx_assert(e.areaportalnum == 0, "without areaportals");
        sx_reach("leak");
        return;
    }
    // what can be walked without crossing areaportals is one area (solid that is detail is walked through by the flood, but is in none of its own)
    bool open[8], portal[8], same[8][8];
    for (int i = 0; i < n; i++) {
        portal[i] = f[i] == EWT_INVISCONTENTS_AREAPORTAL;
        open[i] = !portal[i] & (f[i] != EWT_VISCONTENTS_SOLID);
    }
    for (int i = 0; i < n; i++)
        for (int k = 0; k < n; k++) same[i][k] = i == k && open[i];
    for (int r = 0; r < n; r++)
        for (auto [a, b] : edges)
            for (int i = 0; i < n; i++) {
                bool join = open[a] & open[b] & (same[i][a] | same[i][b]);
                same[i][a] |= join;
                same[i][b] |= join;
            }
    // an area has a number when some leaf of it that is not solid is reached by an entity
    int areas = (int)bsp.dareas.size() - 1;
    bool numbered[8];
    for (int i = 0; i < n; i++) {
        numbered[i] = false;
        for (int k = 0; k < n; k++) numbered[i] |= same[i][k] & (!solid_flags(f[k])) & reached[k];
    }
    for (int i = 0; i < n; i++) {
        int a = leaf[i]->get_leafdata()->area;
        if (open[i]) {
            sx_assert((a != 0) == numbered[i], "a leaf is in an area exactly when entities reach it");
            sx_assert(a >= 0 && a <= areas, "areas are numbered from 1");
            for (int k = 0; k < i; k++)
                if (open[k] && a && leaf[k]->get_leafdata()->area) sx_assert((leaf[k]->get_leafdata()->area == a) == same[i][k], "two leafs are in one area exactly when a way joins them that crosses no areaportal");
        } else if (!portal[i])
            sx_assert(a == 0, "solid is in no area");
    }
    // areaportals: each entity that separates two areas is listed in both, with the other
    sx_assert(bsp.dareas[0].numareaportals == 0, "area 0 is unused");
    for (int e = 1; e < 3; e++) {
        uint32_t touches = 0; // areas
        for (auto [a, b] : edges)
            for (int s = 0; s < 2; s++) {
                int p = s ? a : b, q = s ? b : a;
                if (portal[p] && open[q] && (int)(sx_param(2) >> p & 1) == e - 1) touches |= 1u << leaf[q]->get_leafdata()->area;
            }
        touches &= ~1u;
        auto &ent = map.entities[e];
        int cnt = __builtin_popcount(touches);
        if (cnt <= 2)
            for (int k = 0; k < 2; k++) {
                int x = ent.portalareas[k];
                sx_assert(k < cnt ? x && (touches >> x & 1) : x == 0, "an areaportal knows the areas it touches");
            }
        if (cnt == 2) {
            sx_assert(ent.portalareas[0] != ent.portalareas[1], "which are two");
            sx_reach("separates");
        }
        for (int x = 1; x <= areas; x++) {
            int listed = 0;
            for (int k = 0; k < bsp.dareas[x].numareaportals; k++) {
                auto &dp = bsp.dareaportals.at(bsp.dareas[x].firstareaportal + k);
                if ((int)dp.portalnum != e) continue;
                listed++;
                int other = ent.portalareas[0] == x ? ent.portalareas[1] : ent.portalareas[0];
                sx_assert((int)dp.otherarea == other, "an area lists its areaportals with the area behind");
            }
            sx_assert(listed == ((ent.portalareas[0] == x) | (ent.portalareas[1] == x)), "each once, in the areas it touches");
        }
    }
    for (int i = 0; i < n; i++)
        if (portal[i]) sx_assert(leaf[i]->get_leafdata()->area == map.entities[1 + (sx_param(2) >> i & 1)].portalareas[0], "the leaf of an areaportal is in one of its areas");
    size_t total = 1;
    for (int x = 1; x <= areas; x++) total += bsp.dareas[x].numareaportals;
    sx_assert(total == bsp.dareaportals.size(), "every areaportal is in an area's list");
    sx_reach("areas");
}
