// Conversion between the generic in-memory map and each on-disk format: every field is either carried
// over with its value (bounds rounded outwards) or the conversion is refused; reading a format into the
// generic form and converting back is the identity and never refused.
#include "sx.h"
#include <common/bspfile.hh>
#include <common/numeric_cast.hh>
#include <cstring>
#include <limits>

struct cmp
{
    bool fits = true, same = true;
    template<class G, class T> void i(const G &g, const T &t)
    {
        using L = std::numeric_limits<T>;
        if constexpr (std::is_floating_point_v<G>) {
            uint32_t a, b;
            memcpy(&a, &g, 4);
            memcpy(&b, &t, 4);
            same &= a == b;
        } else {
            fits &= ((__int128)g >= (__int128)L::min()) & ((__int128)g <= (__int128)L::max());
            same &= (__int128)g == (__int128)t;
        }
    }
    // stored as it is
    template<class G, class T> void raw(const G &g, const T &t)
    {
        if constexpr (std::is_floating_point_v<G>) i(g, t);
        else same &= (T)g == t;
    }
    template<class G, class T> void arr(const G &g, const T &t)
    {
        for (size_t k = 0; k < t.size(); k++) i(g[k], t[k]);
    }
    void mins(const qvec3f &g, const qvec3s &t)
    {
        for (int k = 0; k < 3; k++) {
            fits &= (g[k] >= -32768.f) & (g[k] < 32768.f);
            same &= ((float)t[k] <= g[k]) & ((float)(t[k] + 1) > g[k]);
        }
    }
    void maxs(const qvec3f &g, const qvec3s &t)
    {
        for (int k = 0; k < 3; k++) {
            fits &= (g[k] > -32769.f) & (g[k] <= 32767.f);
            same &= ((float)t[k] >= g[k]) & ((float)(t[k] - 1) < g[k]);
        }
    }
    void v3(const qvec3f &g, const qvec3f &t)
    {
        for (int k = 0; k < 3; k++) i(g[k], t[k]);
    }
    void clip(int32_t g, int16_t t)
    {
        // clip nodes: 0..0xfff0 are nodes, -15..-1 contents
        fits &= (g >= -15) & (g <= 0xfff0);
        same &= (uint16_t)t == (uint16_t)g;
    }
    void tex(const texvecf &g, const texvecf &t)
    {
        for (int r = 0; r < 2; r++)
            for (int c = 0; c < 4; c++) i(g.at(r, c), t.at(r, c));
    }
};
#define L3 [](cmp &c, const auto &g, const auto &t)

// G: generic record with every field symbolic (assigned by init), T: format record
template<class G, class T, class I, class F> static void down(I init, F fields)
{
    G g{};
    init(g);
    cmp pre;
    {
        T t{};
        fields(pre, g, t);
    }
    bool refused = false;
    T t{};
    try {
        t = T(g);
    } catch (std::overflow_error &) {
        refused = true;
    }
    if (refused) {
        sx_reach("refused");
        sx_assert(!pre.fits, "a representable record was refused");
    } else {
        sx_reach("converted");
        sx_assert(pre.fits, "a value that does not fit was converted");
        cmp post;
        fields(post, g, t);
        sx_assert(post.same, "a converted field has a different value");
    }
}
// any bytes as a record of T; T -> G -> T must be the identity on the written bytes
template<class G, class T> static bool updown(G &g)
{
    T t;
    sx_symbolic((void *)&t, sizeof t, "rec");
    T b{};
    try {
        g = (G)t;
        b = T(g);
    } catch (std::overflow_error &) {
        sx_fail("converting a loaded record back was refused");
    }
    bool same = true;
    for (size_t i = 0; i < sizeof t; i++) same &= ((uint8_t *)&t)[i] == ((uint8_t *)&b)[i];
    sx_assert(same, "loading into the generic form and converting back changes the record");
    sx_reach("updown");
    return true;
}
template<class T> static void sym(T &v) { sx_symbolic((void *)&v, sizeof v, "g"); }

static void init_node(bsp2_dnode_t &g) { sym(g); }
static void init_leaf(mleaf_t &g) { sym(g); }
static void init_face(mface_t &g)
{
    sym(g.planenum); sym(g.side); sym(g.firstedge); sym(g.numedges); sym(g.texinfo); sym(g.styles); sym(g.lightofs);
}
static void init_clip(bsp2_dclipnode_t &g) { sym(g); }
static void init_model(dmodelh2_t &g) { sym(g); }
static void init_tex(mtexinfo_t &g)
{
    sym(g.vecs); sym(g.flags.native); sym(g.miptex); sym(g.value); sym(g.texture); sym(g.nexttexinfo);
}
static void init_bs(q2_dbrushside_qbism_t &g) { sym(g); }

SX_ENTRY(records_down)
{
    switch (sx_param(0)) {
        case 0: down<bsp2_dnode_t, bsp29_dnode_t>(init_node, L3 { c.i(g.planenum, t.planenum); c.arr(g.children, t.children); c.mins(g.mins, t.mins); c.maxs(g.maxs, t.maxs); c.i(g.firstface, t.firstface); c.i(g.numfaces, t.numfaces); }); break;
        case 1: down<bsp2_dnode_t, bsp2rmq_dnode_t>(init_node, L3 { c.i(g.planenum, t.planenum); c.arr(g.children, t.children); c.mins(g.mins, t.mins); c.maxs(g.maxs, t.maxs); c.i(g.firstface, t.firstface); c.i(g.numfaces, t.numfaces); }); break;
        case 2: down<bsp2_dnode_t, q2_dnode_t>(init_node, L3 { c.i(g.planenum, t.planenum); c.arr(g.children, t.children); c.mins(g.mins, t.mins); c.maxs(g.maxs, t.maxs); c.i(g.firstface, t.firstface); c.i(g.numfaces, t.numfaces); }); break;
        case 3: down<mleaf_t, bsp29_dleaf_t>(init_leaf, L3 { c.i(g.contents, t.contents); c.i(g.visofs, t.visofs); c.mins(g.mins, t.mins); c.maxs(g.maxs, t.maxs); c.i(g.firstmarksurface, t.firstmarksurface); c.i(g.nummarksurfaces, t.nummarksurfaces); c.arr(g.ambient_level, t.ambient_level); }); break;
        case 4: down<mleaf_t, bsp2rmq_dleaf_t>(init_leaf, L3 { c.i(g.contents, t.contents); c.i(g.visofs, t.visofs); c.mins(g.mins, t.mins); c.maxs(g.maxs, t.maxs); c.i(g.firstmarksurface, t.firstmarksurface); c.i(g.nummarksurfaces, t.nummarksurfaces); c.arr(g.ambient_level, t.ambient_level); }); break;
        case 5: down<mleaf_t, bsp2_dleaf_t>(init_leaf, L3 { c.i(g.contents, t.contents); c.i(g.visofs, t.visofs); c.v3(g.mins, t.mins); c.v3(g.maxs, t.maxs); c.i(g.firstmarksurface, t.firstmarksurface); c.i(g.nummarksurfaces, t.nummarksurfaces); c.arr(g.ambient_level, t.ambient_level); }); break;
        case 6: down<mleaf_t, q2_dleaf_t>(init_leaf, L3 { c.i(g.contents, t.contents); c.i(g.cluster, t.cluster); c.i(g.area, t.area); c.mins(g.mins, t.mins); c.maxs(g.maxs, t.maxs); c.i(g.firstmarksurface, t.firstleafface); c.i(g.nummarksurfaces, t.numleaffaces); c.i(g.firstleafbrush, t.firstleafbrush); c.i(g.numleafbrushes, t.numleafbrushes); }); break;
        case 7: down<mleaf_t, q2_dleaf_qbism_t>(init_leaf, L3 { c.i(g.contents, t.contents); c.i(g.cluster, t.cluster); c.i(g.area, t.area); c.v3(g.mins, t.mins); c.v3(g.maxs, t.maxs); c.i(g.firstmarksurface, t.firstleafface); c.i(g.nummarksurfaces, t.numleaffaces); c.i(g.firstleafbrush, t.firstleafbrush); c.i(g.numleafbrushes, t.numleafbrushes); }); break;
        case 8: down<mface_t, bsp29_dface_t>(init_face, L3 { c.i(g.planenum, t.planenum); c.i(g.side, t.side); c.i(g.firstedge, t.firstedge); c.i(g.numedges, t.numedges); c.i(g.texinfo, t.texinfo); c.arr(g.styles, t.styles); c.i(g.lightofs, t.lightofs); }); break;
        case 9: down<mface_t, bsp2_dface_t>(init_face, L3 { c.i(g.planenum, t.planenum); c.i(g.side, t.side); c.i(g.firstedge, t.firstedge); c.i(g.numedges, t.numedges); c.i(g.texinfo, t.texinfo); c.arr(g.styles, t.styles); c.i(g.lightofs, t.lightofs); }); break;
        case 10: down<mface_t, q2_dface_t>(init_face, L3 { c.i(g.planenum, t.planenum); c.i(g.side, t.side); c.i(g.firstedge, t.firstedge); c.i(g.numedges, t.numedges); c.i(g.texinfo, t.texinfo); c.arr(g.styles, t.styles); c.i(g.lightofs, t.lightofs); }); break;
        case 11: down<mface_t, q2_dface_qbism_t>(init_face, L3 { c.i(g.planenum, t.planenum); c.i(g.side, t.side); c.i(g.firstedge, t.firstedge); c.i(g.numedges, t.numedges); c.i(g.texinfo, t.texinfo); c.arr(g.styles, t.styles); c.i(g.lightofs, t.lightofs); }); break;
        case 12: down<bsp2_dclipnode_t, bsp29_dclipnode_t>(init_clip, L3 { c.i(g.planenum, t.planenum); c.clip(g.children[0], t.children[0]); c.clip(g.children[1], t.children[1]); }); break;
        case 13: down<mtexinfo_t, texinfo_t>(init_tex, L3 { c.tex(g.vecs, t.vecs); c.i(g.miptex, t.miptex); c.i(g.flags.native, t.flags); }); break;
        case 14: down<mtexinfo_t, q2_texinfo_t>(init_tex, L3 { c.tex(g.vecs, t.vecs); c.i(g.value, t.value); c.i(g.flags.native, t.flags); c.arr(g.texture, t.texture); c.i(g.nexttexinfo, t.nexttexinfo); }); break;
        case 15: down<q2_dbrushside_qbism_t, q2_dbrushside_t>(init_bs, L3 { c.i(g.planenum, t.planenum); c.i(g.texinfo, t.texinfo); }); break;
        case 16: down<dmodelh2_t, dmodelq1_t>(init_model, L3 { c.v3(g.mins, t.mins); c.v3(g.maxs, t.maxs); c.v3(g.origin, t.origin); c.arr(g.headnode, t.headnode); c.i(g.visleafs, t.visleafs); c.i(g.firstface, t.firstface); c.i(g.numfaces, t.numfaces); }); break;
        case 17: down<dmodelh2_t, q2_dmodel_t>(init_model, L3 { c.v3(g.mins, t.mins); c.v3(g.maxs, t.maxs); c.v3(g.origin, t.origin); c.i(g.headnode[0], t.headnode); c.i(g.firstface, t.firstface); c.i(g.numfaces, t.numfaces); }); break;
        default: sx_fail("harness");
    }
}
SX_ENTRY(records_up)
{
    switch (sx_param(0)) {
        case 0: { bsp2_dnode_t g; updown<bsp2_dnode_t, bsp29_dnode_t>(g); } break;
        case 1: { bsp2_dnode_t g; updown<bsp2_dnode_t, bsp2rmq_dnode_t>(g); } break;
        case 2: { bsp2_dnode_t g; updown<bsp2_dnode_t, q2_dnode_t>(g); } break;
        case 3: { mleaf_t g; updown<mleaf_t, bsp29_dleaf_t>(g); } break;
        case 4: { mleaf_t g; updown<mleaf_t, bsp2rmq_dleaf_t>(g); } break;
        case 5: { mleaf_t g; updown<mleaf_t, bsp2_dleaf_t>(g); } break;
        case 6: { mleaf_t g; updown<mleaf_t, q2_dleaf_t>(g); } break;
        case 7: { mleaf_t g; updown<mleaf_t, q2_dleaf_qbism_t>(g); } break;
        case 8: { mface_t g; updown<mface_t, bsp29_dface_t>(g); } break;
        case 9: { mface_t g; updown<mface_t, bsp2_dface_t>(g); } break;
        case 10: { mface_t g; updown<mface_t, q2_dface_t>(g); } break;
        case 11: { mface_t g; updown<mface_t, q2_dface_qbism_t>(g); } break;
        case 12: { bsp2_dclipnode_t g; updown<bsp2_dclipnode_t, bsp29_dclipnode_t>(g); } break;
        case 13: { mtexinfo_t g; updown<mtexinfo_t, texinfo_t>(g); } break;
        case 14: { mtexinfo_t g; updown<mtexinfo_t, q2_texinfo_t>(g); } break;
        case 15: { q2_dbrushside_qbism_t g; updown<q2_dbrushside_qbism_t, q2_dbrushside_t>(g); } break;
        case 16: { dmodelh2_t g; updown<dmodelh2_t, dmodelq1_t>(g); } break;
        case 17: { dmodelh2_t g; updown<dmodelh2_t, q2_dmodel_t>(g); } break;
        default: sx_fail("harness");
    }
}

static const bspversion_t *vers(int i)
{
    static const bspversion_t *v[] = {&bspver_q1, &bspver_h2, &bspver_hl, &bspver_bsp2, &bspver_h2bsp2, &bspver_bsp2rmq, &bspver_h2bsp2rmq, &bspver_q2, &bspver_qbism};
    return v[i];
}
template<class V, class R> static bool eq(const V &a, const R &b)
{
    bool r = a.size() == b.size();
    if (!r) return false;
    for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
    return r;
}
// Whole-map conversion: refused exactly when some record cannot be represented, and then the map is left
// as it was; otherwise every lump is carried over.
SX_ENTRY(map_convert)
{
    const bspversion_t *to = vers((int)sx_param(0));
    const bool q2 = to->game->id == GAME_QUAKE_II;
    const bool wide = to == &bspver_bsp2 || to == &bspver_h2bsp2 || to == &bspver_bsp2rmq || to == &bspver_h2bsp2rmq || to == &bspver_qbism;
    bspdata_t b{};
    b.version = &bspver_generic;
    mbsp_t &m = b.bsp.emplace<mbsp_t>();
    const int N = 2;
    m.dentdata = "ab";
    sx_symbolic(m.dentdata.data(), 2, "ent");
    m.dplanes.resize(N);
    m.dvertexes.resize(N);
    m.dlightdata.resize(3);
    sx_symbolic(m.dlightdata.data(), 3, "light");
    m.dvis.bits.resize(3);
    sx_symbolic(m.dvis.bits.data(), 3, "vis");
    m.dvis.resize(1);
    sx_symbolic(m.dvis.bit_offsets.data(), 8, "vo");
    m.dnodes.resize(1);
    m.dnodes[0].mins = m.dnodes[0].maxs = {};
    sym(m.dnodes[0].planenum); sym(m.dnodes[0].children); sym(m.dnodes[0].firstface); sym(m.dnodes[0].numfaces);
    m.dfaces.resize(1);
    init_face(m.dfaces[0]);
    m.texinfo.resize(1);
    init_tex(m.texinfo[0]);
    m.dclipnodes.resize(1);
    sym(m.dclipnodes[0]);
    m.dleafs.resize(1);
    m.dleafs[0] = {};
    sym(m.dleafs[0].firstmarksurface);
    sym(m.dleafs[0].cluster);
    m.dleaffaces.resize(N); m.dleafbrushes.resize(N); m.dsurfedges.resize(N); m.dedges.resize(N);
    sx_symbolic(m.dleaffaces.data(), 4 * N, "lf");
    sx_symbolic(m.dleafbrushes.data(), 4 * N, "lb");
    sx_symbolic(m.dsurfedges.data(), 4 * N, "se");
    sx_symbolic(m.dedges.data(), 8 * N, "e");
    for (auto &p : m.dplanes) sx_symbolic(&p.type, 4, "pt"), sx_symbolic(&p.dist, 4, "pd");
    for (auto &p : m.dvertexes) sx_symbolic(&p, 12, "v");
    m.dmodels.resize(1);
    sym(m.dmodels[0]);
    m.dbrushes.resize(1); sym(m.dbrushes[0]);
    m.dbrushsides.resize(1); sym(m.dbrushsides[0]);
    m.dareas.resize(1); sym(m.dareas[0]);
    m.dareaportals.resize(1); sym(m.dareaportals[0]);
    const mbsp_t in = m;
    auto in16 = [](int64_t v, int64_t lo, int64_t hi) { return (v >= lo) & (v <= hi); };
    bool fits = true;
    if (!wide) {
        for (int i = 0; i < N; i++) {
            fits &= in16(m.dleaffaces[i], 0, 65535);
            if (q2) fits &= in16(m.dleafbrushes[i], 0, 65535);
            fits &= in16(m.dedges[i][0], 0, 65535) & in16(m.dedges[i][1], 0, 65535);
        }
        if (!q2) {
            for (int k = 0; k < 2; k++) fits &= in16(m.dnodes[0].children[k], -32768, 32767) & in16(m.dclipnodes[0].children[k], -15, 0xfff0);
        } else {
            fits &= in16(m.dleafs[0].cluster, -32768, 32767);
            fits &= in16(m.dbrushsides[0].planenum, 0, 65535) & in16(m.dbrushsides[0].texinfo, -32768, 32767);
        }
        fits &= in16(m.dnodes[0].firstface, 0, 65535) & in16(m.dnodes[0].numfaces, 0, 65535);
        fits &= in16(m.dleafs[0].firstmarksurface, 0, 65535);
        fits &= q2 ? in16(m.dfaces[0].planenum, 0, 65535) : in16(m.dfaces[0].planenum, -32768, 32767);
        fits &= in16(m.dfaces[0].side, -32768, 32767) & in16(m.dfaces[0].numedges, -32768, 32767) & in16(m.dfaces[0].texinfo, -32768, 32767);
    } else
        fits &= to == &bspver_qbism ? in16(m.dfaces[0].planenum, 0, 4294967295ll) : in16(m.dfaces[0].planenum, -2147483648ll, 2147483647ll);
    bool ok = ConvertBSPFormat(&b, to);
    if (!ok) {
        sx_reach("map refused");
        sx_assert(!fits, "a representable map was refused");
        sx_assert(b.version == &bspver_generic && std::holds_alternative<mbsp_t>(b.bsp), "refused conversion changed the map's format");
    } else {
        sx_reach("map converted");
        sx_assert(fits, "a map that does not fit was converted");
        sx_assert(b.version == to, "converted map does not carry the target version");
        bool back = ConvertBSPFormat(&b, &bspver_generic);
        sx_assert(back && b.loadversion == to, "a converted map cannot be read back");
    }
    const mbsp_t &r = std::get<mbsp_t>(b.bsp);
    sx_assert(r.dentdata == in.dentdata, "entity text changed");
    sx_assert(eq(r.dlightdata, in.dlightdata), "lighting changed");
    sx_assert(eq(r.dvis.bits, in.dvis.bits), "visibility bits changed");
    sx_assert(eq(r.dleaffaces, in.dleaffaces), "leaf faces changed");
    sx_assert(eq(r.dsurfedges, in.dsurfedges), "surface edges changed");
    sx_assert(eq(r.dedges, in.dedges), "edges changed");
    bool s = true;
    s &= r.dnodes.size() == 1 && r.dfaces.size() == 1 && r.texinfo.size() == 1 && r.dleafs.size() == 1 && r.dmodels.size() == 1 && r.dplanes.size() == N && r.dvertexes.size() == N;
    sx_assert(s, "record counts changed");
    for (int i = 0; i < N; i++) {
        s &= r.dplanes[i].type == in.dplanes[i].type && !memcmp(&r.dplanes[i].dist, &in.dplanes[i].dist, 4);
        s &= !memcmp(&r.dvertexes[i], &in.dvertexes[i], 12);
    }
    s &= r.dnodes[0].planenum == in.dnodes[0].planenum && r.dnodes[0].children == in.dnodes[0].children && r.dnodes[0].firstface == in.dnodes[0].firstface && r.dnodes[0].numfaces == in.dnodes[0].numfaces;
    s &= r.dfaces[0].planenum == in.dfaces[0].planenum && r.dfaces[0].side == in.dfaces[0].side && r.dfaces[0].firstedge == in.dfaces[0].firstedge && r.dfaces[0].numedges == in.dfaces[0].numedges &&
         r.dfaces[0].texinfo == in.dfaces[0].texinfo && r.dfaces[0].styles == in.dfaces[0].styles && r.dfaces[0].lightofs == in.dfaces[0].lightofs;
    s &= !memcmp(&r.texinfo[0].vecs, &in.texinfo[0].vecs, sizeof(texvecf)) && r.texinfo[0].flags.native == in.texinfo[0].flags.native;
    s &= r.dleafs[0].firstmarksurface == in.dleafs[0].firstmarksurface;
    s &= !memcmp(&r.dmodels[0].mins, &in.dmodels[0].mins, 36) && r.dmodels[0].headnode[0] == in.dmodels[0].headnode[0] && r.dmodels[0].firstface == in.dmodels[0].firstface && r.dmodels[0].numfaces == in.dmodels[0].numfaces;
    sx_assert(s, "a record changed");
    if (q2 || !ok) {
        sx_assert(r.dvis.bit_offsets == in.dvis.bit_offsets, "cluster offsets changed");
        s &= eq(r.dleafbrushes, in.dleafbrushes) && r.dleafs[0].cluster == in.dleafs[0].cluster && r.texinfo[0].value == in.texinfo[0].value && r.texinfo[0].texture == in.texinfo[0].texture && r.texinfo[0].nexttexinfo == in.texinfo[0].nexttexinfo;
        s &= r.dbrushes.size() == 1 && !memcmp(r.dbrushes.data(), in.dbrushes.data(), 12) && r.dbrushsides.size() == 1 && !memcmp(r.dbrushsides.data(), in.dbrushsides.data(), 8);
        s &= r.dareas == in.dareas && r.dareaportals == in.dareaportals;
        sx_assert(s, "a Quake II record changed");
    }
    if (!q2 || !ok) {
        s &= r.texinfo[0].miptex == in.texinfo[0].miptex && r.dclipnodes.size() == 1 && r.dclipnodes[0].planenum == in.dclipnodes[0].planenum && r.dclipnodes[0].children == in.dclipnodes[0].children;
        s &= r.dmodels[0].visleafs == in.dmodels[0].visleafs;
        for (int k = 0; k < 8; k++) s &= (k >= 4 && ok && to->game->id != GAME_HEXEN_II) || r.dmodels[0].headnode[k] == in.dmodels[0].headnode[k];
        sx_assert(s, "a Quake record changed");
    }
}
// The checked cast itself, for every pair of widths
template<class D, class S> static void cast1()
{
    S v = sx_any<S>("v");
    __int128 x = v;
    bool fits = (x >= (__int128)std::numeric_limits<D>::min()) & (x <= (__int128)std::numeric_limits<D>::max());
    try {
        D d = numeric_cast<D>(v);
        sx_assert(fits && (__int128)d == x, "numeric_cast returned a different value");
    } catch (std::overflow_error &) {
        sx_assert(!fits, "numeric_cast refused a value that fits");
    }
}
template<class D> static void castf()
{
    float v = sx_any<float>("f");
    // integral-valued floats, the only ones the code passes (it floors/ceils first)
    double x = v;
    bool fits = (x > (double)std::numeric_limits<D>::min() - 1) & (x < (double)std::numeric_limits<D>::max() + 1);
    sx_assume((x != x) | (v == __builtin_truncf(v)));
    try {
        D d = numeric_cast<D>(v);
        sx_assert(fits, "numeric_cast accepted a float that does not fit");
        sx_assert((double)d == x, "numeric_cast changed a float's value");
    } catch (std::overflow_error &) {
        sx_assert(!fits, "numeric_cast refused a float that fits");
    }
}
SX_ENTRY(casts)
{
    switch (sx_param(0)) {
        case 0: cast1<uint8_t, uint16_t>(); cast1<uint8_t, int32_t>(); cast1<int8_t, int16_t>(); cast1<int8_t, uint32_t>(); break;
        case 1: cast1<uint16_t, uint32_t>(); cast1<uint16_t, int32_t>(); cast1<uint16_t, int64_t>(); cast1<uint16_t, uint64_t>(); cast1<uint16_t, int16_t>(); break;
        case 2: cast1<int16_t, uint16_t>(); cast1<int16_t, uint32_t>(); cast1<int16_t, int32_t>(); cast1<int16_t, int64_t>(); cast1<int16_t, uint64_t>(); break;
        case 3: cast1<int32_t, uint32_t>(); cast1<int32_t, int64_t>(); cast1<int32_t, uint64_t>(); cast1<int32_t, int16_t>(); cast1<int32_t, uint16_t>(); break;
        case 4: cast1<uint32_t, int32_t>(); cast1<uint32_t, int64_t>(); cast1<uint32_t, uint64_t>(); cast1<uint32_t, int16_t>(); cast1<int64_t, uint64_t>(); cast1<uint64_t, int64_t>(); break;
        case 5: castf<int16_t>(); break;
        case 6: castf<uint16_t>(); break;
        case 7: castf<uint8_t>(); break;
    }
    sx_reach("cast");
}
