// Every on-disk record of every supported BSP version: reading then writing is the identity on the
// file's bytes, the record occupies exactly the documented number of bytes, and each field is the
// little-endian value found at the documented offset.
#include "sx.h"
#include <common/bspfile.hh>
#include <common/cmdlib.hh>
#include <bit>
#include <cstring>

struct dec
{
    const uint8_t *p;
    size_t o = 0;
    bool ok = true;
    uint64_t le(int n)
    {
        uint64_t v = 0;
        for (int i = 0; i < n; i++) v |= (uint64_t)p[o + i] << (8 * i);
        o += n;
        return v;
    }
    template<class T> void f(const T &v)
    {
        if constexpr (std::is_floating_point_v<T>) {
            static_assert(sizeof(T) == 4);
            uint32_t b;
            memcpy(&b, &v, 4);
            ok &= b == (uint32_t)le(4);
        } else
            ok &= v == (T)le(sizeof(T));
    }
    template<class T> void v3(const qvec<T, 3> &v)
    {
        f(v[0]); f(v[1]); f(v[2]);
    }
    template<class A> void arr(const A &a)
    {
        for (auto &x : a) f(x);
    }
    // texture vectors are stored row by row
    void tex(const texvecf &t)
    {
        for (int r = 0; r < 2; r++)
            for (int c = 0; c < 4; c++) f(t.at(r, c));
    }
};

template<class T, size_t S, class F> static void check(F fields)
{
    uint8_t *in = new uint8_t[S], *out = new uint8_t[S + 4];
    sx_symbolic(in, S, "bytes");
    for (size_t i = 0; i < S + 4; i++) out[i] = 0xa5;
    T v;
    {
        imemstream s(in, S);
        s >= v;
        sx_assert(s.good(), "reading a whole record failed");
        sx_assert((size_t)s.tellg() == S, "record size read is not the documented one");
    }
    dec d{in};
    fields(d, v);
    sx_assert(d.o == S, "harness layout");
    sx_assert(d.ok, "a field is not the value at its documented offset");
    {
        omemstream s(out, S + 4);
        s <= v;
        sx_assert(s.good(), "writing a record failed");
        sx_assert((size_t)s.tellp() == S, "record size written is not the documented one");
    }
    bool same = true;
    for (size_t i = 0; i < S; i++) same &= in[i] == out[i];
    sx_assert(same, "read then write changes the bytes");
    for (size_t i = S; i < S + 4; i++) same &= out[i] == 0xa5;
    sx_assert(same, "wrote past the record");
    // the element size the writer/loader uses for this record
    sx_assert(sizeof(T) == S, "in-memory size used for lump counts differs from the on-disk size");
    sx_reach("rec");
    delete[] in; delete[] out;
}

#define F3 [](dec &d, auto &v)
SX_ENTRY(common_records)
{
    switch (sx_param(0)) {
        case 0: check<lump_t, 8>(F3 { d.f(v.fileofs); d.f(v.filelen); }); break;
        case 1: check<dplane_t, 20>(F3 { d.v3(v.normal); d.f(v.dist); d.f(v.type); }); break;
        case 2: check<bsp2_dnode_t, 44>(F3 { d.f(v.planenum); d.arr(v.children); d.v3(v.mins); d.v3(v.maxs); d.f(v.firstface); d.f(v.numfaces); }); break;
        case 3: check<bsp2_dclipnode_t, 12>(F3 { d.f(v.planenum); d.arr(v.children); }); break;
        case 4: check<darea_t, 8>(F3 { d.f(v.numareaportals); d.f(v.firstareaportal); }); break;
        case 5: check<dareaportal_t, 8>(F3 { d.f(v.portalnum); d.f(v.otherarea); }); break;
        case 6: check<dbrush_t, 12>(F3 { d.f(v.firstside); d.f(v.numsides); d.f(v.contents); }); break;
        case 7: check<q2_dbrushside_qbism_t, 8>(F3 { d.f(v.planenum); d.f(v.texinfo); }); break;
        case 8: check<dmodelh2_t, 80>(F3 { d.v3(v.mins); d.v3(v.maxs); d.v3(v.origin); d.arr(v.headnode); d.f(v.visleafs); d.f(v.firstface); d.f(v.numfaces); }); break;
        case 9: check<dmiptex_t, 40>(F3 { d.arr(v.name); d.f(v.width); d.f(v.height); d.arr(v.offsets); }); break;
        case 10: check<qvec3f, 12>(F3 { d.v3(v); }); break;
        case 11: check<bsp2_dedge_t, 8>(F3 { d.arr(v); }); break;
        case 12: check<bsp29_dedge_t, 4>(F3 { d.arr(v); }); break;
        default: sx_fail("harness");
    }
}
SX_ENTRY(q1_records)
{
    switch (sx_param(0)) {
        case 0: check<dheader_t, 4 + 15 * 8>(F3 { d.f(v.ident); for (auto &l : v.lumps) { d.f(l.fileofs); d.f(l.filelen); } }); break;
        case 1: check<dmodelq1_t, 64>(F3 { d.v3(v.mins); d.v3(v.maxs); d.v3(v.origin); d.arr(v.headnode); d.f(v.visleafs); d.f(v.firstface); d.f(v.numfaces); }); break;
        case 2: check<bsp29_dnode_t, 24>(F3 { d.f(v.planenum); d.arr(v.children); d.v3(v.mins); d.v3(v.maxs); d.f(v.firstface); d.f(v.numfaces); }); break;
        case 3: check<bsp2rmq_dnode_t, 32>(F3 { d.f(v.planenum); d.arr(v.children); d.v3(v.mins); d.v3(v.maxs); d.f(v.firstface); d.f(v.numfaces); }); break;
        case 4: check<bsp29_dclipnode_t, 8>(F3 { d.f(v.planenum); d.arr(v.children); }); break;
        case 5: check<texinfo_t, 40>(F3 { d.tex(v.vecs); d.f(v.miptex); d.f(v.flags); }); break;
        case 6: check<bsp29_dface_t, 20>(F3 { d.f(v.planenum); d.f(v.side); d.f(v.firstedge); d.f(v.numedges); d.f(v.texinfo); d.arr(v.styles); d.f(v.lightofs); }); break;
        case 7: check<bsp2_dface_t, 28>(F3 { d.f(v.planenum); d.f(v.side); d.f(v.firstedge); d.f(v.numedges); d.f(v.texinfo); d.arr(v.styles); d.f(v.lightofs); }); break;
        case 8: check<bsp29_dleaf_t, 28>(F3 { d.f(v.contents); d.f(v.visofs); d.v3(v.mins); d.v3(v.maxs); d.f(v.firstmarksurface); d.f(v.nummarksurfaces); d.arr(v.ambient_level); }); break;
        case 9: check<bsp2rmq_dleaf_t, 32>(F3 { d.f(v.contents); d.f(v.visofs); d.v3(v.mins); d.v3(v.maxs); d.f(v.firstmarksurface); d.f(v.nummarksurfaces); d.arr(v.ambient_level); }); break;
        case 10: check<bsp2_dleaf_t, 44>(F3 { d.f(v.contents); d.f(v.visofs); d.v3(v.mins); d.v3(v.maxs); d.f(v.firstmarksurface); d.f(v.nummarksurfaces); d.arr(v.ambient_level); }); break;
        default: sx_fail("harness");
    }
}
SX_ENTRY(q2_records)
{
    switch (sx_param(0)) {
        case 0: check<q2_dheader_t, 8 + 19 * 8>(F3 { d.f(v.ident); d.f(v.version); for (auto &l : v.lumps) { d.f(l.fileofs); d.f(l.filelen); } }); break;
        case 1: check<q2_dmodel_t, 48>(F3 { d.v3(v.mins); d.v3(v.maxs); d.v3(v.origin); d.f(v.headnode); d.f(v.firstface); d.f(v.numfaces); }); break;
        case 2: check<q2_dnode_t, 28>(F3 { d.f(v.planenum); d.arr(v.children); d.v3(v.mins); d.v3(v.maxs); d.f(v.firstface); d.f(v.numfaces); }); break;
        case 3: check<q2_texinfo_t, 76>(F3 { d.tex(v.vecs); d.f(v.flags); d.f(v.value); d.arr(v.texture); d.f(v.nexttexinfo); }); break;
        case 4: check<q2_dface_t, 20>(F3 { d.f(v.planenum); d.f(v.side); d.f(v.firstedge); d.f(v.numedges); d.f(v.texinfo); d.arr(v.styles); d.f(v.lightofs); }); break;
        case 5: check<q2_dface_qbism_t, 28>(F3 { d.f(v.planenum); d.f(v.side); d.f(v.firstedge); d.f(v.numedges); d.f(v.texinfo); d.arr(v.styles); d.f(v.lightofs); }); break;
        case 6: check<q2_dleaf_t, 28>(F3 { d.f(v.contents); d.f(v.cluster); d.f(v.area); d.v3(v.mins); d.v3(v.maxs); d.f(v.firstleafface); d.f(v.numleaffaces); d.f(v.firstleafbrush); d.f(v.numleafbrushes); }); break;
        case 7: check<q2_dleaf_qbism_t, 52>(F3 { d.f(v.contents); d.f(v.cluster); d.f(v.area); d.v3(v.mins); d.v3(v.maxs); d.f(v.firstleafface); d.f(v.numleaffaces); d.f(v.firstleafbrush); d.f(v.numleafbrushes); }); break;
        case 8: check<q2_dbrushside_t, 4>(F3 { d.f(v.planenum); d.f(v.texinfo); }); break;
        default: sx_fail("harness");
    }
}
// the element size each version declares for each lump
SX_ENTRY(lump_sizes)
{
    static const int q1[15] = {1, 20, 1, 12, 1, 24, 40, 20, 1, 8, 28, 2, 4, 4, 64};
    static const int b2[15] = {1, 20, 1, 12, 1, 44, 40, 28, 1, 12, 44, 4, 8, 4, 64};
    static const int rmq[15] = {1, 20, 1, 12, 1, 32, 40, 28, 1, 12, 32, 4, 8, 4, 64};
    static const int q2[19] = {1, 20, 12, 1, 28, 76, 20, 1, 28, 2, 2, 4, 4, 48, 12, 4, 1, 8, 8};
    static const int qb[19] = {1, 20, 12, 1, 44, 76, 28, 1, 52, 4, 4, 8, 4, 48, 12, 8, 1, 8, 8};
    struct row { const bspversion_t *v; const int *s; int n; int modelsize; int ident; int version; } rows[] = {
        {&bspver_q1, q1, 15, 64, 29, -1}, {&bspver_hl, q1, 15, 64, 30, -1}, {&bspver_h2, q1, 15, 80, 29, -1},
        {&bspver_bsp2, b2, 15, 64, 0x32505342, -1}, {&bspver_h2bsp2, b2, 15, 80, 0x32505342, -1},
        {&bspver_bsp2rmq, rmq, 15, 64, 0x42535032, -1}, {&bspver_h2bsp2rmq, rmq, 15, 80, 0x42535032, -1},
        {&bspver_q2, q2, 19, 48, 0x50534249, 38}, {&bspver_qbism, qb, 19, 48, 0x50534251, 38}};
    for (auto &r : rows) {
        sx_assert((int)r.v->lumps.size() == r.n, "lump count of a version");
        sx_assert(r.v->ident == r.ident, "format identifier of a version");
        sx_assert(r.version < 0 ? !r.v->version.has_value() : r.v->version == r.version, "format version number");
        for (int i = 0; i < r.n; i++) {
            int want = (r.n == 15 && i == 14) ? r.modelsize : r.s[i];
            sx_assert((int)r.v->lumps.begin()[i].size == want, "element size of a lump");
        }
        sx_reach("version");
    }
}
// integers and floats in either declared byte order
template<class T, bool BE> static void scalar()
{
    uint8_t in[sizeof(T)], out[sizeof(T)];
    sx_symbolic(in, sizeof in, "bytes");
    T v;
    imemstream s(in, sizeof in);
    if (BE) s >> endianness<std::endian::big>;
    else s >> endianness<std::endian::little>;
    s >= v;
    uint64_t w = 0, g = 0;
    for (size_t i = 0; i < sizeof(T); i++) w |= (uint64_t)in[BE ? sizeof(T) - 1 - i : i] << (8 * i);
    memcpy(&g, &v, sizeof v);
    sx_assert(g == w, "scalar decoded in the wrong byte order");
    omemstream o(out, sizeof out);
    if (BE) o << endianness<std::endian::big>;
    else o << endianness<std::endian::little>;
    o <= v;
    sx_assert(o.good() && (size_t)o.tellp() == sizeof(T), "scalar width");
    bool same = true;
    for (size_t i = 0; i < sizeof(T); i++) same &= in[i] == out[i];
    sx_assert(same, "scalar written in a different byte order");
    sx_reach("scalar");
}
SX_ENTRY(scalars)
{
    scalar<uint8_t, false>(); scalar<int8_t, true>(); scalar<char, true>();
    scalar<uint16_t, false>(); scalar<int16_t, false>(); scalar<uint16_t, true>(); scalar<int16_t, true>();
    scalar<uint32_t, false>(); scalar<int32_t, false>(); scalar<uint32_t, true>(); scalar<int32_t, true>();
    scalar<uint64_t, false>(); scalar<int64_t, false>(); scalar<uint64_t, true>(); scalar<int64_t, true>();
    scalar<float, false>(); scalar<float, true>(); scalar<double, false>(); scalar<double, true>();
}
