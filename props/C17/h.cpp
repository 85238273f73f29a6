// Visible boundaries become faces: from the portals of a tree to the vertices, edges and faces of the bsp.
#include "sx.h"
#include <qbsp/faces.hh>
#include <qbsp/map.hh>
#include <qbsp/merge.hh>
#include <qbsp/portals.hh>
#include <qbsp/qbsp.hh>
#include <qbsp/tjunc.hh>
#include <qbsp/tree.hh>
#include <qbsp/writebsp.hh>
#include <cmath>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>

void EmitVertices(node_t *headnode);
size_t EmitFaces(node_t *headnode);

static const gamedef_t *game_of(int id)
{
    static const gamedef_t *games[] = {bspver_q1.game, bspver_h2.game, bspver_hl.game, bspver_q2.game};
    return games[id];
}
// a plane is the only node's; in front of it lie nx columns of leafs, behind it ny rows, so that nx*ny cells of it are portals
struct grid
{
    int id, nx, ny, axis;
    double x[8], y[8];
    tree_t tree;
    node_t inner[16], leaf[2][8];
    uint64_t flags[2][8];
    int tex[2][8]; // texinfo of the side of the leaf's brush that lies on the plane
    std::vector<portal_t> portals;
    std::vector<mapface_t> source;
    bspbrush_t::container brushes;
    portal_t *cell[8][8];
    qvec3d at(double u, double v, double w = 0) const
    {
        qvec3d p{};
        p[(axis + 1) % 3] = u;
        p[(axis + 2) % 3] = v;
        p[axis] = w;
        return p;
    }
};
static const uint64_t front_kinds[] = {EWT_VISCONTENTS_EMPTY, EWT_VISCONTENTS_WATER, EWT_VISCONTENTS_SOLID, EWT_VISCONTENTS_MIST | EWT_CFLAG_DETAIL};
static const uint64_t back_kinds[] = {EWT_VISCONTENTS_SOLID, EWT_VISCONTENTS_EMPTY, EWT_VISCONTENTS_DETAIL_WALL | EWT_CFLAG_DETAIL, EWT_VISCONTENTS_WATER, EWT_VISCONTENTS_SOLID | EWT_CFLAG_DETAIL,
    EWT_VISCONTENTS_WINDOW | EWT_CFLAG_TRANSLUCENT | EWT_CFLAG_DETAIL, EWT_VISCONTENTS_WATER | EWT_CFLAG_MIRROR_INSIDE_SET};

static void make(grid &g, int id, int nx, int ny, int axis, int fk, int bk, int texs)
{
    g.id = id;
    g.nx = nx;
    g.ny = ny;
    g.axis = axis;
    qbsp_options.target_game = game_of(id);
    qbsp_options.bsp_path = "m.bsp";
    // lines of the grid, not all as far apart
    static const double xs[] = {-24, 8, 40, 104, 120, 136}, ys[] = {0, 64, 80, 144, 176, 192};
    for (int i = 0; i < 6; i++) g.x[i] = xs[i], g.y[i] = ys[i];
    qvec3d n{};
    n[axis] = 1;
    map.add_plane(qplane3d{n, 0});
    for (int i = 1; i < nx; i++) map.add_plane(qplane3d{g.at(1, 0), g.x[i]});
    for (int k = 1; k < ny; k++) map.add_plane(qplane3d{g.at(0, 1), g.y[k]});
    map.miptex.resize(4);
    map.mtexinfos.resize(4);
    for (int t = 0; t < 4; t++) {
        map.miptex[t].name = std::string("tex") + (char)('0' + t);
        map.mtexinfos[t].miptex = t;
        map.mtexinfos[t].vecs.at(0, (axis + 1) % 3) = 1;
        map.mtexinfos[t].vecs.at(1, (axis + 2) % 3) = -1;
        map.mtexinfos[t].vecs.at(0, 3) = 5 * t;
    }
    map.mtexinfos[2].flags.is_nodraw = true;
    map.mtexinfos[3].flags.is_nodraw = true;
    if (id == 3) map.mtexinfos[3].flags.native = Q2_SURF_LIGHT | Q2_SURF_NODRAW;
    g.source.resize(64);
    int ns = 0;
    for (int s = 0; s < 2; s++)
        for (int i = 0; i < (s ? ny : nx); i++) {
            node_t *l = &g.leaf[s][i];
            g.flags[s][i] = s ? back_kinds[sx_choice(bk, "behind")] : front_kinds[sx_choice(fk, "in front")];
            l->make_leaf()->contents = contentflags_t::make((contents_int_t)g.flags[s][i]);
            l->bounds = s ? aabb3d(g.at(g.x[0], g.y[i], -64), g.at(g.x[nx], g.y[i + 1], 0)) : aabb3d(g.at(g.x[i], g.y[0], 0), g.at(g.x[i + 1], g.y[ny], 64));
            g.tex[s][i] = -1;
            if (g.flags[s][i] == EWT_VISCONTENTS_EMPTY) continue;
            g.tex[s][i] = texs > 1 ? (int)sx_concretize(sx_choice(texs, "texture")) : 0;
            // an earlier brush, and the one that counts
            for (int b = 0; b < 2; b++) {
                auto br = std::make_shared<bspbrush_t>();
                br->contents = l->get_leafdata()->contents;
                br->sides.resize(3);
                for (int k = 0; k < 3; k++) {
                    auto &sd = br->sides[k];
                    sd.planenum = (k == 1 ? 2 : 0) | (s ? 0 : 1); // the second side is of another plane
                    sd.texinfo = k == 2 && b ? g.tex[s][i] : k == 2 ? 1 - (g.tex[s][i] & 1) : 1;
                    sd.bevel = k == 0;
                    g.source[ns].lmshift = 4;
                    sd.source = k == 0 ? nullptr : &g.source[ns++];
                }
                g.brushes.push_back(br);
                l->get_leafdata()->original_brushes.push_back(br.get());
            }
        }
    // the tree
    int used = 1;
    g.inner[0].get_nodedata()->planenum = 0;
    for (int s = 0; s < 2; s++) {
        int count = s ? ny : nx;
        node_t *parent = &g.inner[0];
        int side = s;
        for (int i = 0; i + 1 < count; i++) {
            node_t *n = &g.inner[used++];
            n->get_nodedata()->planenum = 2 * (s ? nx + i : 1 + i);
            parent->get_nodedata()->children[side] = n;
            n->get_nodedata()->children[1] = &g.leaf[s][i];
            parent = n;
            side = 0;
        }
        parent->get_nodedata()->children[side] = &g.leaf[s][count - 1];
    }
    for (int i = 0; i < used; i++) g.inner[i].bounds = aabb3d(g.at(-500, -500, -500), g.at(500, 500, 500));
    g.tree.headnode = &g.inner[0];
    g.portals.reserve(64);
    for (int i = 0; i < nx; i++)
        for (int k = 0; k < ny; k++) {
            g.portals.emplace_back();
            auto &p = g.portals.back();
            g.cell[i][k] = &p;
            p.plane = map.planes[0];
            p.onnode = &g.inner[0];
            p.nodes = {&g.leaf[0][i], &g.leaf[1][k]};
            for (int s = 0; s < 2; s++) p.next[s] = p.nodes[s]->portals, p.nodes[s]->portals = &p;
            // clockwise seen from the front
            p.winding = winding_t{g.at(g.x[i], g.y[k]), g.at(g.x[i], g.y[k + 1]), g.at(g.x[i + 1], g.y[k + 1]), g.at(g.x[i + 1], g.y[k])};
        }
}
static bool is_solid(uint64_t f) { return f & EWT_VISCONTENTS_SOLID; }

// the texinfo of the face of a cell that is seen from in front (s = 0) or from behind, or -1
static int wanted(const grid &g, int i, int k, int s)
{
    auto *game = qbsp_options.target_game;
    uint64_t own = s ? g.flags[1][k] : g.flags[0][i], other = s ? g.flags[0][i] : g.flags[1][k];
    int own_tex = s ? g.tex[1][k] : g.tex[0][i], other_tex = s ? g.tex[0][i] : g.tex[1][k];
    if (is_solid(own)) return -1;
    auto visible = game->portal_visible_contents(contentflags_t::make((contents_int_t)g.flags[0][i]), contentflags_t::make((contents_int_t)g.flags[1][k]));
    if (visible.is_empty(game)) return -1;
    int tex = -1;
    if (other_tex >= 0 && game->portal_generates_face(visible, contentflags_t::make((contents_int_t)other), SIDE_FRONT))
        tex = other_tex; // the outside of the brush behind
    else if (own_tex >= 0 && game->portal_generates_face(visible, contentflags_t::make((contents_int_t)own), SIDE_BACK))
        tex = own_tex; // the inside of the brush the leaf is of
    if (tex == 2 || (tex == 3 && g.id != 3)) return -1;
    return tex;
}
struct polygon
{
    std::vector<qvec3d> v;
    int texinfo, side, face;
    bool inside(const qvec3d &p, const qvec3d &n) const
    {
        bool pos = true, neg = true;
        for (size_t i = 0; i < v.size(); i++) {
            double d = qv::dot(qv::cross(v[(i + 1) % v.size()] - v[i], p - v[i]), n);
            pos &= d > 0 | (v[(i + 1) % v.size()] == v[i]);
            neg &= d < 0 | (v[(i + 1) % v.size()] == v[i]);
            // along one line
            if (d == 0) return false;
        }
        return pos | neg;
    }
    qvec3d area() const // of a clockwise polygon, towards the viewer
    {
        qvec3d a{};
        for (size_t i = 1; i + 1 < v.size(); i++) a += qv::cross(v[i + 1] - v[0], v[i] - v[0]) * 0.5;
        return a;
    }
};
// params: game, columns, rows, axis, kinds in front, kinds behind, textures, tjunc level, maxedges, options (1 nomerge, 2 noedgereuse, 4 includeskip... )
SX_ENTRY(faces)
{
    grid g{};
    int opt = (int)sx_param(9);
    make(g, (int)sx_param(0), (int)sx_param(1), (int)sx_param(2), (int)sx_param(3), (int)sx_param(4), (int)sx_param(5), (int)sx_param(6));
    auto level = (settings::tjunclevel_t)sx_param(7);
    qbsp_options.tjunc.set_value(level, settings::source::COMMANDLINE);
    qbsp_options.maxedges.set_value((int)sx_param(8), settings::source::COMMANDLINE);
    qbsp_options.nomerge.set_value(opt & 1, settings::source::COMMANDLINE);
    qbsp_options.noedgereuse.set_value(opt & 2, settings::source::COMMANDLINE);
    qbsp_options.subdivide.set_value((int)sx_param(10), settings::source::COMMANDLINE);
    auto *head = g.tree.headnode;
    BeginBSPFile();
    MarkVisibleSides(g.tree, g.brushes);
    MakeFaces(head);
    MakeMarkFaces(head);
    EmitVertices(head);
    TJunc(head);
    size_t first = EmitFaces(head);
    auto &bsp = map.bsp;
    sx_assert(first == 0 && (int)bsp.dfaces.size() == g.inner[0].get_nodedata()->numfaces, "a node has its faces");
    sx_assert(map.exported_lmshifts.size() == bsp.dfaces.size(), "every face has its lightmap scale");

    qvec3d n = map.planes[0].get_normal();
    std::vector<polygon> polys;
    for (size_t f = 0; f < bsp.dfaces.size(); f++) {
        auto &df = bsp.dfaces[f];
        polygon p;
        p.face = (int)f;
        p.side = df.side;
        auto &pl = bsp.dplanes.at(df.planenum);
        sx_assert(pl.normal == qvec3f(n) && pl.dist == 0, "a face lies on its plane");
        sx_assert(df.lightofs == -1 && df.styles[0] == 255, "and has no light yet");
        auto &ti = bsp.texinfo.at(df.texinfo);
        sx_assert(std::strncmp(ti.texture.data(), "tex", 3) == 0, "and a texture");
        p.texinfo = ti.texture[3] - '0';
        sx_assert(df.numedges >= 3, "and at least 3 edges");
        if (qbsp_options.maxedges.value()) sx_assert(df.numedges <= qbsp_options.maxedges.value(), "and no more than the most allowed");
        for (int e = 0; e < df.numedges; e++) {
            int32_t se = bsp.dsurfedges.at(df.firstedge + e), next = bsp.dsurfedges.at(df.firstedge + (e + 1) % df.numedges);
            sx_assert(se != 0, "the first edge is not used");
            auto &a = bsp.dedges.at(std::abs(se)), &b = bsp.dedges.at(std::abs(next));
            uint32_t from = se < 0 ? a[1] : a[0], to = se < 0 ? a[0] : a[1], then = next < 0 ? b[1] : b[0];
            sx_assert(to == then, "edges follow each other round the face");
            p.v.push_back(bsp.dvertexes.at(from));
            sx_assert(qv::dot(p.v.back(), n) == 0, "every vertex lies on the plane");
        }
        qvec3d area = p.area();
        sx_assert(qv::dot(area, n) * (p.side ? -1 : 1) >= 0, "a face looks to its side");
        polys.push_back(p);
    }
    // vertices are those of the grid, each once
    for (size_t a = 0; a < bsp.dvertexes.size(); a++)
        for (size_t b = 0; b < a; b++) sx_assert(!(bsp.dvertexes[a] == bsp.dvertexes[b]), "vertices are shared");
    // what covers each cell
    double area[2] = {}, total[2] = {}, covered[2] = {};
    for (auto &p : polys) total[p.side] += std::fabs(qv::dot(p.area(), n));
    for (int i = 0; i < g.nx; i++)
        for (int k = 0; k < g.ny; k++) {
            double w = g.x[i + 1] - g.x[i], h = g.y[k + 1] - g.y[k];
            for (int s = 0; s < 2; s++) {
                int want = wanted(g, i, k, s);
                // faces that are inside detail walls are left out, unless they became one with others
                bool hidden = (s ? g.flags[1][k] : g.flags[0][i]) & EWT_VISCONTENTS_DETAIL_WALL;
                if (want >= 0) (hidden ? covered : area)[s] += w * h;
                // three places that lie on no line between vertices of the grid
                for (int t = 0; t < 2; t++) {
                    qvec3d at = g.at(g.x[i] + w * (t ? 0.50371 : 0.11713), g.y[k] + h * (t ? 0.41137 : 0.89317));
                    int found = 0;
                    for (auto &p : polys)
                        if (p.side == s && p.inside(at, n)) {
                            found++;
                            sx_assert(p.texinfo == want, "with the texture of the brush that is last in the map");
                            // the leaf it is seen from lists it
                            bool listed = false;
                            auto *own = g.leaf[s][s ? k : i].get_leafdata();
                            for (auto *mf : own->markfaces)
                                for (auto &fr : mf->fragments) listed |= fr.outputnumber && (int)*fr.outputnumber == p.face;
                            sx_assert(listed, "a leaf lists the faces seen from it");
                        }
                    sx_assert(found == (want >= 0) || (hidden && !found), "a boundary that is seen has exactly one face there, others none");
                }
            }
        }
    for (int s = 0; s < 2; s++) sx_assert(total[s] >= area[s] && total[s] <= area[s] + covered[s], "faces cover no more and no less than the boundaries that are seen");
    if (int sub = qbsp_options.subdivide.value())
        for (auto &p : polys)
            for (int c = 1; c < 3; c++) {
                double lo = 1e9, hi = -1e9;
                for (auto &v : p.v) lo = std::min(lo, v[(g.axis + c) % 3]), hi = std::max(hi, v[(g.axis + c) % 3]);
                sx_assert(hi - lo <= sub, "no face is larger than the subdivision");
            }
    // leafs list nothing they do not touch
    for (int s = 0; s < 2; s++)
        for (int i = 0; i < (s ? g.ny : g.nx); i++)
            for (auto *mf : g.leaf[s][i].get_leafdata()->markfaces) {
                double lo = s ? g.y[i] : g.x[i], hi = s ? g.y[i + 1] : g.x[i + 1];
                bool touches = false;
                double mins = 1e9, maxs = -1e9;
                for (size_t v = 0; v < mf->w.size(); v++) {
                    double c = mf->w[v][(g.axis + 1 + s) % 3];
                    mins = std::min(mins, c);
                    maxs = std::max(maxs, c);
                }
                touches = mins < hi && maxs > lo;
                sx_assert(touches && (int)(mf->planenum & 1) == s, "and no others");
            }
    // no face has another's vertex in the middle of an edge, where the two are of one kind
    if (level != settings::tjunclevel_t::NONE) {
        auto *nd = g.inner[0].get_nodedata();
        for (auto &f : nd->facelist)
            for (auto &o : nd->facelist) {
                if (f->contents.back.flags != o->contents.back.flags) continue;
                for (auto &fr : f->fragments)
                    for (size_t e = 0; e < fr.output_vertices.size(); e++) {
                        qvec3d a = bsp.dvertexes[fr.output_vertices[e]], b = bsp.dvertexes[fr.output_vertices[(e + 1) % fr.output_vertices.size()]];
                        // an edge of the face itself, not one within it
                        bool own = false;
                        for (size_t v = 0; v < f->original_vertices.size(); v++) {
                            qvec3d p = bsp.dvertexes[f->original_vertices[v]], q = bsp.dvertexes[f->original_vertices[(v + 1) % f->original_vertices.size()]];
                            own |= qv::length2(qv::cross(q - p, a - p)) == 0 && qv::length2(qv::cross(q - p, b - p)) == 0;
                        }
                        if (!own) continue;
                        for (auto v : o->original_vertices) {
                            qvec3d p = bsp.dvertexes[v];
                            bool between = qv::length2(qv::cross(b - a, p - a)) == 0 && qv::dot(p - a, b - a) > 0 && qv::dot(p - b, a - b) > 0;
                            sx_assert(!between, "no vertex of a face lies within an edge of another");
                        }
                    }
            }
    }
    // an edge is shared only by faces of equal contents in front (for software renderers)
    std::vector<const face_t *> owner(bsp.dedges.size());
    for (auto &f : g.inner[0].get_nodedata()->facelist)
        for (auto &fr : f->fragments) {
            if (!fr.outputnumber) continue;
            auto &df = bsp.dfaces[*fr.outputnumber];
            sx_assert(map.exported_lmshifts[*fr.outputnumber] == f->original_side->lmshift, "its own lightmap scale");
            for (int e = 0; e < df.numedges; e++) {
                int32_t se = bsp.dsurfedges[df.firstedge + e];
                if (se > 0) {
                    sx_assert(!owner[se], "an edge runs forwards along one face only");
                    owner[se] = f.get();
                }
            }
        }
    for (auto &f : g.inner[0].get_nodedata()->facelist)
        for (auto &fr : f->fragments)
            if (fr.outputnumber) {
                auto &df = bsp.dfaces[*fr.outputnumber];
                for (int e = 0; e < df.numedges; e++) {
                    int32_t se = bsp.dsurfedges[df.firstedge + e];
                    if (se < 0) {
                        sx_assert(!(opt & 2) && owner[-se] && owner[-se]->contents.front.equals(qbsp_options.target_game, f->contents.front), "and backwards along faces of equal contents");
                        sx_reach("shared");
                    }
                }
            }
    if (polys.size() > 1) sx_reach("several");
    sx_reach("faces");
}
// One face with vertices of its neighbours along its edges. params: shape, tjunc level, maxedges, most points on an edge
SX_ENTRY(junctions)
{
    static const std::vector<std::array<double, 2>> shapes[] = {{{0, 0}, {0, 48}, {96, 48}, {96, 0}}, {{0, 0}, {48, 48}, {96, 0}}, {{0, 24}, {24, 48}, {72, 48}, {96, 24}, {72, 0}, {24, 0}}};
    auto &shape = shapes[sx_param(0)];
    auto level = (settings::tjunclevel_t)sx_param(1);
    int maxedges = (int)sx_param(2), most = (int)sx_param(3);
    qbsp_options.target_game = bspver_q1.game;
    qbsp_options.tjunc.set_value(level, settings::source::COMMANDLINE);
    qbsp_options.maxedges.set_value(maxedges, settings::source::COMMANDLINE);
    map.add_plane(qplane3d{{0, 0, 1}, 0});
    map.miptex.resize(1);
    map.miptex[0].name = "tex";
    map.mtexinfos.resize(1);
    static mapface_t source;
    node_t head{}, leaf[2] = {};
    head.bounds = aabb3d(qvec3d(-500, -500, -500), qvec3d(500, 500, 500));
    head.get_nodedata()->planenum = 0;
    for (int s = 0; s < 2; s++) {
        leaf[s].make_leaf()->contents = s ? qbsp_options.target_game->create_solid_contents() : qbsp_options.target_game->create_empty_contents();
        head.get_nodedata()->children[s] = &leaf[s];
    }
    auto add = [&](const std::vector<qvec3d> &v) {
        auto f = std::make_unique<face_t>();
        f->planenum = 0;
        f->texinfo = 0;
        f->original_side = &source;
        f->contents = {.front = leaf[0].get_leafdata()->contents, .back = leaf[1].get_leafdata()->contents};
        for (auto &p : v) f->w.push_back(p);
        head.get_nodedata()->facelist.push_back(std::move(f));
    };
    std::vector<qvec3d> face, all;
    for (auto &p : shape) face.push_back(qvec3d(p[0], p[1], 0));
    add(face);
    static const int places[] = {4, 2, 6};
    for (size_t e = 0; e < face.size(); e++) {
        qvec3d a = face[e], b = face[(e + 1) % face.size()], out = qv::cross(qvec3d(0, 0, 1), b - a);
        all.push_back(a);
        int count = (int)sx_concretize(sx_choice(most + 1, "points on an edge"));
        std::vector<qvec3d> pts{a};
        for (int at = 1; at < 8; at++)
            for (int i = 0; i < count; i++)
                if (places[i] == at) pts.push_back(a + (b - a) * (at / 8.0));
        for (size_t i = 1; i < pts.size(); i++) all.push_back(pts[i]);
        // neighbours that meet the edge in one point each, in another order
        auto dir = (b - a) * 0.0625;
        for (int i = 0; i < count; i++) {
            qvec3d p = a + (b - a) * (places[(i + e) % count] / 8.0);
            add({p, p + out * 0.25 + dir, p + out * 0.25 - dir});
        }
    }
    BeginBSPFile();
    EmitVertices(&head);
    TJunc(&head);
    EmitFaces(&head);
    auto &bsp = map.bsp;
    auto *f = head.get_nodedata()->facelist.front().get();
    qvec3d n{0, 0, 1};
    polygon whole;
    whole.v = face;
    double want = qv::dot(whole.area(), n), got = 0;
    std::vector<polygon> polys;
    std::vector<int> used(all.size());
    for (auto &fr : f->fragments) {
        polygon p;
#ifndef SX_SYMBOLIC
        if (getenv("DBG")) { printf("part"); for (auto v : fr.output_vertices) printf(" (%g %g)", (double)bsp.dvertexes[v][0], (double)bsp.dvertexes[v][1]); puts(""); }
#endif
        sx_assert(fr.outputnumber.has_value(), "every part is written");
        sx_assert(!maxedges || (int)fr.output_vertices.size() <= maxedges, "no part has too many edges");
        for (auto v : fr.output_vertices) {
            p.v.push_back(bsp.dvertexes[v]);
            bool known = false;
            for (size_t i = 0; i < all.size(); i++)
                if (all[i] == p.v.back()) known = true, used[i]++;
            sx_assert(known, "parts have the face's and its neighbours' vertices only");
        }
        for (size_t i = 0; i < p.v.size(); i++) {
            qvec3d a = p.v[i], b = p.v[(i + 1) % p.v.size()], c = p.v[(i + 2) % p.v.size()];
            sx_assert(!(a == b), "no edge is empty");
            sx_assert(qv::dot(qv::cross(c - b, b - a), n) >= 0, "parts are convex");
            for (auto &o : all) {
                bool between = qv::length2(qv::cross(b - a, o - a)) == 0 && qv::dot(o - a, b - a) > 0 && qv::dot(o - b, a - b) > 0;
                sx_assert(!between || level == settings::tjunclevel_t::NONE || (maxedges && level != settings::tjunclevel_t::MWT), "no vertex lies within an edge");
            }
        }
        double area = qv::dot(p.area(), n);
        got += area;
        polys.push_back(p);
    }
    sx_assert(std::fabs(got - want) < 1e-6, "parts cover the face exactly");
    if (level != settings::tjunclevel_t::NONE)
        for (auto u : used) sx_assert(u > 0, "every vertex is used");
    for (int i = 0; i < 12; i++) {
        qvec3d at(5.317 + 7.77 * i, 3.1 + (i * 17 % 41) * 1.01, 0);
        int in = 0;
        for (auto &p : polys) in += p.inside(at, n);
        sx_assert(in == whole.inside(at, n), "once");
    }
    if (polys.size() > 2) sx_reach("parts");
    sx_reach("junctions");
}
// A convex face cut along lines, of which any parts may have another texture or other contents. params: shape, cuts, textures, liquids, option
SX_ENTRY(merged)
{
    static const std::vector<std::array<double, 2>> shapes[] = {{{0, 0}, {0, 64}, {64, 64}, {64, 0}}, {{0, 16}, {32, 64}, {96, 64}, {128, 32}, {96, 0}, {32, 0}}, {{0, 0}, {32, 64}, {64, 0}}};
    auto &shape = shapes[sx_param(0)];
    qbsp_options.target_game = game_of(sx_param(4) & 3);
    bool apart = sx_param(4) & 4;
    qbsp_options.nomergeacrossliquids.set_value(apart, settings::source::COMMANDLINE);
    map.add_plane(qplane3d{{0, 0, 1}, 0});
    map.mtexinfos.resize(2);
    static mapface_t source[2];
    source[1].lmshift = 2;
    winding_t w;
    for (auto &p : shape) w.push_back(qvec3d(p[0], p[1], 0));
    std::vector<winding_t> parts;
    parts.push_back(std::move(w));
    static const double cuts[][3] = {{1, 0, 32}, {0, 1, 24}, {1, 1, 64}, {1, -1, 8}, {1, 0, 48}, {1, -2, 0}};
    if (sx_param(1) < 0) {
        // triangles round a point
        static const std::array<double, 2> places[] = {{32, 40}, {40, 16}, {28, 24}};
        auto &at = places[sx_choice(3, "middle")];
        winding_t w = std::move(parts[0]);
        parts.clear();
        for (size_t i = 0; i < w.size(); i++) parts.push_back(winding_t{w[i], w[(i + 1) % w.size()], {at[0], at[1], 0}});
    }
    for (int c = 0; c < (int)sx_param(1); c++) {
        int k = (int)sx_concretize(sx_choice(6, "cut"));
        qvec3d n{cuts[k][0], cuts[k][1], 0};
        double len = qv::normalizeInPlace(n);
        std::vector<winding_t> next;
        for (auto &p : parts) {
            auto [f, b] = p.clip({n, cuts[k][2] / len}, 0.01, false);
            if (f) next.push_back(std::move(*f));
            if (b) next.push_back(std::move(*b));
        }
        parts = std::move(next);
    }
    struct kind_t
    {
        int tex, water, shift;
        double x, y;
    };
    std::vector<kind_t> kinds;
    std::list<std::unique_ptr<face_t>> list;
    double want[2][2][2] = {}, got[2][2][2] = {};
    qvec3d n{0, 0, 1};
    auto area = [&](const winding_t &w) {
        double a = 0;
        for (size_t i = 1; i + 1 < w.size(); i++) a += qv::dot(qv::cross(w[i + 1] - w[0], w[i] - w[0]), n) * 0.5;
        return a;
    };
    for (auto &p : parts) {
        auto f = std::make_unique<face_t>();
        int t = sx_param(2) > 1 ? (int)sx_concretize(sx_choice(2, "texture")) : 0, l = sx_param(3) > 1 ? (int)sx_concretize(sx_choice(2, "liquid")) : 0, s = (int)(list.size() == 1);
        f->texinfo = t;
        f->original_side = &source[s];
        f->contents = {.front = l ? contentflags_t::make(EWT_VISCONTENTS_WATER) : qbsp_options.target_game->create_empty_contents(), .back = qbsp_options.target_game->create_solid_contents()};
        f->w = p.clone();
        auto c = p.center();
        kinds.push_back({t, l, s, c[0], c[1]});
        want[t][l][s] += area(p);
        list.push_back(std::move(f));
    }
    size_t before = list.size();
    logging::stat_tracker_t::stat merged("merged", false, false);
    auto result = MergeFaceList(std::move(list), merged);
    sx_assert(result.size() + merged.count.load() == before, "merges are counted");
    for (auto &f : result) {
        double a = area(f->w);
        sx_assert(a > 0 && f->w.size() >= 3, "a merged face looks the same way");
        int liquid = f->contents.front.is_liquid(qbsp_options.target_game);
        int s = f->original_side == &source[1];
        got[f->texinfo][liquid][s] += a;
        for (size_t i = 0; i < f->w.size(); i++) {
            qvec3d p = f->w[i], q = f->w[(i + 1) % f->w.size()], r = f->w[(i + 2) % f->w.size()];
            sx_assert(qv::dot(qv::cross(r - q, q - p), n) > 0.5, "without points along a straight line");
            for (size_t k = 0; k < f->w.size(); k++) {
                qvec3d d = q - p;
                sx_assert(qv::dot(qv::cross(f->w[k] - p, d), n) >= -0.05 * qv::length(d), "all round");
            }
        }
        // whatever is inside was of this kind before
        for (auto &k : kinds) {
            bool in = true;
            for (size_t i = 0; i < f->w.size(); i++) in &= qv::dot(qv::cross(qvec3d(k.x, k.y, 0) - f->w[i], f->w[(i + 1) % f->w.size()] - f->w[i]), n) > 0;
            if (in) sx_assert(k.tex == f->texinfo && k.shift == s && (!apart || k.water == liquid), "only faces alike are merged");
        }
    }
    for (int t = 0; t < 2; t++)
        for (int s = 0; s < 2; s++) {
            if (apart)
                for (int l = 0; l < 2; l++) sx_assert(std::fabs(got[t][l][s] - want[t][l][s]) < 0.5, "each kind covers as much as before");
            sx_assert(std::fabs(got[t][0][s] + got[t][1][s] - want[t][0][s] - want[t][1][s]) < 0.5, "nothing is lost or covered twice");
        }
    if (merged.count.load()) sx_reach("fewer");
    sx_reach("merged");
}
