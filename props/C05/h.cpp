// vis assembles each leaf's (or cluster's) visibility row from the visibility of its portals,
// and, for Quake II, the hearable set from the visible sets. The whole tool runs: map, portal file and
// a finished state file (whose portal rows are arbitrary) are read, the map is written and read back.
#include "sx.h"
#include "memfs.h"
#include <vis/vis.hh>
#include <common/bspfile.hh>
#include <cstring>

static void put32(std::vector<uint8_t> &v, uint32_t x)
{
    for (int i = 0; i < 4; i++) v.push_back((uint8_t)(x >> (8 * i)));
}
static std::string num(int n)
{
    char b[12];
    int k = 12;
    if (!n) return "0";
    bool neg = n < 0;
    if (neg) n = -n;
    while (n) {
        b[--k] = (char)('0' + n % 10);
        n /= 10;
    }
    return (neg ? "-" : "") + std::string(b + k, 12 - k);
}
struct setup
{
    int clusters = 0, leafs = 0; // leafs: without the shared solid leaf (Quake only)
    std::vector<int> cluster_of; // per leaf
    std::vector<std::array<int, 2>> port;
    bool q2 = false;
    int format = 1; // 1: PRT1, 2: PRT2, 3: PRT1-AM
};
static mbsp_t make_map(const setup &s)
{
    mbsp_t b{};
    b.loadversion = s.q2 ? &bspver_q2 : &bspver_q1;
    b.dentdata = "{\n\"classname\" \"worldspawn\"\n}\n";
    b.dmodels.resize(1);
    b.dleafs.resize(s.leafs + 1);
    for (int i = 0; i <= s.leafs; i++) {
        b.dleafs[i].visofs = -1;
        b.dleafs[i].cluster = s.q2 ? (i ? s.cluster_of[i - 1] : -1) : 0;
    }
    if (!s.q2) b.dmodels[0].visleafs = s.leafs;
    return b;
}
static std::string make_prt(const setup &s)
{
    std::string t;
    if (s.format == 1) t = "PRT1\n" + num(s.clusters) + "\n" + num((int)s.port.size()) + "\n";
    else if (s.format == 2) t = "PRT2\n" + num(s.leafs) + "\n" + num(s.clusters) + "\n" + num((int)s.port.size()) + "\n";
    else t = "PRT1-AM\n" + num(s.clusters) + "\n" + num((int)s.port.size()) + "\n" + num(s.leafs) + "\n";
    for (auto &p : s.port) t += "4 " + num(p[0]) + " " + num(p[1]) + " (0 0 0 ) (0 64 0 ) (0 64 64 ) (0 0 64 )\n";
    if (s.format == 2)
        for (int c = 0; c < s.clusters; c++) {
            for (int l = 0; l < s.leafs; l++)
                if (s.cluster_of[l] == c) t += num(l) + " ";
            t += "-1\n";
        }
    if (s.format == 3)
        for (int l = 0; l < s.leafs; l++) t += num(s.cluster_of[l]) + "\n";
    return t;
}
// rows: numportals*2 rows of (clusters+7)/8 bytes
static std::vector<uint8_t> make_state(const setup &s, const std::vector<std::vector<uint8_t>> &rows)
{
    std::vector<uint8_t> v;
    uint32_t nb = (s.clusters + 7) / 8;
    put32(v, 'T' << 24 | 'Y' << 16 | 'R' << 8 | '1');
    put32(v, (uint32_t)s.port.size());
    put32(v, s.clusters);
    put32(v, 0);
    put32(v, 0);
    for (auto &r : rows) {
        put32(v, pstat_done);
        put32(v, nb);
        put32(v, nb);
        put32(v, s.clusters);
        put32(v, s.clusters);
        for (uint32_t i = 0; i < nb; i++) v.push_back(0xff);
        for (uint32_t i = 0; i < nb; i++) v.push_back(r[i]);
    }
    return v;
}
// decodes a row the way an engine does; at most n bytes, never past the lump
static bool decode(const std::vector<uint8_t> &d, size_t at, std::vector<uint8_t> &out)
{
    size_t k = 0;
    while (k < out.size()) {
        if (at >= d.size()) return false;
        uint8_t b = d[at++];
        if (b) {
            out[k++] = b;
            continue;
        }
        if (at >= d.size()) return false;
        for (int c = (int)sx_concretize(d[at++]); c > 0; c--) {
            if (k >= out.size()) return false;
            out[k++] = 0;
        }
    }
    return true;
}
static setup make_setup()
{
    setup s;
    s.q2 = sx_param(0);
    s.clusters = (int)sx_param(1);
    s.leafs = (int)sx_param(2);
    s.format = (int)sx_param(3);
    for (int i = 0; i < s.leafs; i++) s.cluster_of.push_back(i < s.clusters ? i : (i * 7 + 3) % s.clusters);
    if (s.clusters == s.leafs) // identity
        for (int i = 0; i < s.leafs; i++) s.cluster_of[i] = i;
    else
        std::reverse(s.cluster_of.begin(), s.cluster_of.end());
    return s;
}
SX_ENTRY(assemble)
{
    setup s = make_setup();
    const int nsym = (int)sx_param(4), c0 = (int)sx_param(5), c1 = (int)sx_param(6);
    s.port.push_back({c0, c1});
    s.port.push_back({c1, (c1 + 1) % s.clusters});
    const int nb = (s.clusters + 7) / 8;
    std::vector<std::vector<uint8_t>> rows(4, std::vector<uint8_t>(nb));
    rows[1][0] = 0x05; rows[2][nb - 1] = 1; rows[3][0] = 0x02;
    for (int i = 0; i < nsym; i++) {
        sx_symbolic(rows[i].data(), nb, "row");
        // the symbolic clusters: a few of each byte, including its first and its last (pad bits are never set by vis)
        for (int k = 0; k < nb; k++) {
            const int left = s.clusters - 8 * k, top = left >= 8 ? 7 : left - 1;
            int m = nb == 1 ? 0x0f : nb == 2 ? 3 | 1 << top : nb == 3 ? 1 | 1 << top : k == 0 ? 1 : k >= nb - 2 ? 1 << top : 0;
            rows[i][k] &= m & ((1 << (top + 1)) - 1);
        }
    }
    mbsp_t b = make_map(s);
    bspdata_t bd{.version = &bspver_generic, .file = "m.bsp", .bsp = b};
    ConvertBSPFormat(&bd, b.loadversion);
    WriteBSPFile("m.bsp", &bd);
    std::string prt = make_prt(s);
    memfs::put("m.prt", prt.data(), prt.size());
    auto st = make_state(s, rows);
    memfs::put("m.vis", st.data(), st.size());
    const char *argv[] = {"vis", "-noambient", "-nodefaultpaths", "m.bsp"};
    vis_main(4, argv);

    bspdata_t rd;
    fs::path name = "m.bsp";
    LoadBSPFile(name, &rd);
    sx_assert(rd.version == b.loadversion, "map version changed");
    ConvertBSPFormat(&rd, &bspver_generic);
    const mbsp_t &o = std::get<mbsp_t>(rd.bsp);

    // expected cluster rows
    std::vector<std::vector<uint8_t>> want(s.clusters, std::vector<uint8_t>(nb));
    for (int c = 0; c < s.clusters; c++) {
        want[c][c >> 3] |= 1 << (c & 7);
        for (size_t p = 0; p < s.port.size(); p++) {
            if (s.port[p][0] == c)
                for (int k = 0; k < nb; k++) want[c][k] |= rows[2 * p][k];
            if (s.port[p][1] == c)
                for (int k = 0; k < nb; k++) want[c][k] |= rows[2 * p + 1][k];
        }
    }
    auto see = [&](int a, int b2) { return (want[a][b2 >> 3] >> (b2 & 7)) & 1; };
    sx_assert((int)o.dleafs.size() == s.leafs + 1, "leaf count changed");
    bool ok = true, fits = true, phs = true, fitsphs = true;
    if (s.q2) {
        sx_assert((int)o.dvis.bit_offsets.size() == s.clusters, "number of visibility clusters");
        for (int c = 0; c < s.clusters; c++) {
            std::vector<uint8_t> r(nb), h(nb);
            fits &= decode(o.dvis.bits, o.dvis.get_bit_offset(VIS_PVS, c), r);
            fitsphs &= decode(o.dvis.bits, o.dvis.get_bit_offset(VIS_PHS, c), h);
            for (int k = 0; k < nb; k++) ok &= r[k] == want[c][k];
            for (int k = 0; k < s.clusters; k++) {
                uint8_t x = 0;
                for (int m = 0; m < s.clusters; m++) x |= see(c, m) & see(m, k);
                phs &= ((h[k >> 3] >> (k & 7)) & 1) == x;
            }
        }
        sx_assert(fitsphs, "a hearable row does not decode within the lump");
        sx_assert(phs, "the hearable set is not the union of the visible sets of what is visible");
    } else {
        const int lb = (s.leafs + 7) / 8;
        sx_assert(o.dleafs[0].visofs == -1, "visibility of the shared solid leaf changed");
        for (int i = 0; i < s.leafs; i++) {
            sx_assert(o.dleafs[i + 1].visofs >= 0, "leaf without visibility data");
            std::vector<uint8_t> r(lb);
            fits &= decode(o.dvis.bits, o.dleafs[i + 1].visofs, r);
            for (int j = 0; j < s.leafs; j++) ok &= ((r[j >> 3] >> (j & 7)) & 1) == see(s.cluster_of[i], s.cluster_of[j]);
        }
    }
    sx_assert(fits, "a visibility row does not decode within the lump");
    sx_assert(ok, "a visibility row differs from the union of its portals' visibility");
    sx_reach("assembled");
}
