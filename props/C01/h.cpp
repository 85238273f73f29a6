// Row (de)compression of the visibility lump: real CompressRow / DecompressVis.
#include "sx.h"
#include <common/bsputils.hh>
#include <vector>
#include <iterator>

// every row of N bytes survives compress -> decompress, and the compressed form is bounded
SX_ENTRY(roundtrip)
{
    const int n = (int)sx_param(0);
    std::vector<uint8_t> row(n);
    if (n) sx_symbolic(row.data(), n, "row");
    std::vector<uint8_t> c;
    CompressRow(row.data(), n, std::back_inserter(c));
    sx_assert(c.size() <= (size_t)n * 2, "compressed row larger than twice the row");
    uint8_t *out = new uint8_t[n + 1];
    out[n] = 0xa5;
    for (int i = 0; i < n; i++) out[i] = 0x5a;
    DecompressVis(c.data(), c.data() + c.size(), out, out + n);
    bool same = true;
    for (int i = 0; i < n; i++) same &= out[i] == row[i];
    sx_assert(same, "row changed by compress/decompress");
    sx_assert(out[n] == 0xa5, "wrote past the row");
    sx_reach("done");
    delete[] out;
}

// long zero runs: n bytes, all zero except symbolic ones at the given window
SX_ENTRY(longrun)
{
    const int n = (int)sx_param(0), w = (int)sx_param(1), k = (int)sx_param(2);
    std::vector<uint8_t> row(n);
    sx_symbolic(row.data() + w, k, "win");
    sx_symbolic(row.data(), 1, "first");
    std::vector<uint8_t> c;
    CompressRow(row.data(), n, std::back_inserter(c));
    uint8_t *out = new uint8_t[n];
    for (int i = 0; i < n; i++) out[i] = 0x5a;
    DecompressVis(c.data(), c.data() + c.size(), out, out + n);
    bool same = true;
    for (int i = 0; i < n; i++) same &= out[i] == row[i];
    sx_assert(same, "row changed by compress/decompress (long zero run)");
    sx_reach("done");
    delete[] out;
}

// arbitrary (malformed) compressed bytes: never reads outside the input, never writes outside the
// output, and every output byte is either untouched or what the run-length encoding says.
SX_ENTRY(malformed)
{
    const int m = (int)sx_param(0), n = (int)sx_param(1);
    uint8_t *in = new uint8_t[m ? m : 1];
    if (m) sx_symbolic(in, m, "in");
    uint8_t *out = new uint8_t[n ? n : 1];
    for (int i = 0; i < n; i++) out[i] = 0x5a;
    DecompressVis(in, in + m, out, out + n);
    // reference decoder
    uint8_t *ref = new uint8_t[n ? n : 1];
    for (int i = 0; i < n; i++) ref[i] = 0x5a;
    int o = 0, p = 0;
    while (o < n && p < m) {
        uint8_t c = in[p++];
        if (c) { ref[o++] = c; continue; }
        if (p == m) break;
        uint8_t rep = in[p++];
        if (!rep) break;
        for (int k = 0; k < n; k++)
            if (k < rep && o < n) ref[o++] = 0;
        // a run longer than the row stops decoding
    }
    bool same = true;
    for (int i = 0; i < n; i++) same &= ref[i] == out[i];
    sx_assert(same, "decoder disagrees with the run-length format");
    sx_reach("malformed");
    delete[] in; delete[] out; delete[] ref;
}

// whole-map decompression: every row of the lump that a leaf (or cluster) references is decoded from
// its own offset, every other reference is skipped; nothing outside the lump is read.
SX_ENTRY(all_vis_q1)
{
    const int nleafs = 3, nb = (int)sx_param(0);
    mbsp_t bsp;
    bsp.loadversion = &bspver_q1;
    bsp.dleafs.resize(nleafs);
    bsp.dmodels.resize(1);
    int visleafs = sx_range<int>(1, 16, "visleafs");
    bsp.dmodels[0].visleafs = (int)sx_concretize(visleafs);
    bsp.dvis.bits.resize(nb);
    sx_symbolic(bsp.dvis.bits.data(), nb, "bits");
    for (int i = 0; i < nleafs; i++) {
        int o = sx_any<int>("visofs");
        if (i == 0) sx_assume(o == -1);
        bsp.dleafs[i].visofs = o;
    }
    auto r = DecompressAllVis(&bsp, false);
    const size_t sz = (bsp.dmodels[0].visleafs + 7) / 8;
    size_t expect = 0;
    for (int i = 0; i < nleafs; i++) {
        int o = bsp.dleafs[i].visofs;
        if (o < 0 || o >= nb) {
            continue;
        }
        bool dup = false;
        for (int k = 0; k < i; k++) dup |= bsp.dleafs[k].visofs == o;
        expect += !dup;
        auto it = r.find(o);
        sx_assert(it != r.end(), "referenced row missing");
        sx_assert(it->second.size() == sz, "decoded row has the wrong size");
        std::vector<uint8_t> ref(sz);
        DecompressVis(bsp.dvis.bits.data() + o, bsp.dvis.bits.data() + nb, ref.data(), ref.data() + sz);
        bool same = true;
        for (size_t k = 0; k < sz; k++) same &= ref[k] == it->second[k];
        sx_assert(same, "decoded row is not the referenced row");
        sx_reach("row");
    }
    sx_assert(r.size() == expect, "rows decoded that no leaf references");
}

SX_ENTRY(all_vis_q2)
{
    const int nc = (int)sx_param(0), nb = (int)sx_param(1);
    mbsp_t bsp;
    bsp.loadversion = &bspver_q2;
    bsp.dvis.resize(nc);
    bsp.dvis.bits.resize(nb);
    sx_symbolic(bsp.dvis.bits.data(), nb, "bits");
    for (int i = 0; i < nc; i++) {
        int32_t o = sx_any<int32_t>("ofs");
        bsp.dvis.set_bit_offset(VIS_PVS, i, o);
        bsp.dvis.set_bit_offset(VIS_PHS, i, 0x7fffffff);
    }
    auto r = DecompressAllVis(&bsp, false);
    const size_t sz = (nc + 7) / 8;
    size_t expect = 0;
    for (int i = 0; i < nc; i++) {
        int32_t o = bsp.dvis.get_bit_offset(VIS_PVS, i);
        if (o < 0 || o >= nb) continue;
        expect++;
        auto it = r.find(i);
        sx_assert(it != r.end(), "cluster row missing");
        sx_assert(it->second.size() == sz, "decoded row has the wrong size");
        std::vector<uint8_t> ref(sz);
        DecompressVis(bsp.dvis.bits.data() + o, bsp.dvis.bits.data() + nb, ref.data(), ref.data() + sz);
        bool same = true;
        for (size_t k = 0; k < sz; k++) same &= ref[k] == it->second[k];
        sx_assert(same, "decoded row is not the cluster's row");
        sx_reach("q2row");
    }
    sx_assert(r.size() == expect, "rows decoded for clusters without vis data");
}
