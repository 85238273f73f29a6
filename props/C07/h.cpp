// Portal files: what is loaded is what the file says, anything else is refused.
#include "sx.h"
#include "memfs.h"
#include <common/prtfile.hh>
#include <common/bspfile.hh>
#include <common/cmdlib.hh>

static std::string num(int n)
{
    char b[12];
    int k = 12;
    if (!n) return "0";
    bool neg = n < 0;
    if (neg) n = -n;
    while (n) {
        b[--k] = (char)('0' + n % 10);
        n /= 10;
    }
    return (neg ? "-" : "") + std::string(b + k, 12 - k);
}
static int pick(int lo, int hi, const char *name) { return lo + (int)sx_choice(hi - lo + 1, name); }

// a number in the text: any one-digit number, negative too
struct dig
{
    int v;
    std::string t;
};
static dig any_digit(const char *name, bool neg_ok = true)
{
    dig d;
    uint8_t c = sx_range<uint8_t>('0', '9', name);
    bool neg = neg_ok && sx_bool("sign");
    if (neg) d.t = "-";
    d.t += (char)c;
    d.v = neg ? -(int)(c - '0') : (int)(c - '0');
    return d;
}
// every header and portal line with one-digit numbers, in every dialect, for every game
SX_ENTRY(headers)
{
    const int fmt = (int)sx_param(0); // 1, 2, 3 = AM
    const bool q2 = sx_param(1);
    const int which = (int)sx_param(2); // which numbers are free
    dig clusters{2, "2"}, real{fmt == 1 ? 2 : 3, fmt == 1 ? "2" : "3"}, np{1, "1"}, a{0, "0"}, b{1, "1"}, pts{3, "3"}, x{64, "64"};
    if (which == 0) {
        clusters = any_digit("clusters");
        if (fmt == 1) real = clusters;
        sx_assume(clusters.v < 4);
    }
    if (which == 1 && fmt != 1) {
        real = any_digit("leafs");
        sx_assume(real.v < 4);
    }
    if (which == 2) {
        np = any_digit("portals");
        sx_assume(np.v < 3);
    }
    if (which == 3) a = any_digit("from"), b = any_digit("to");
    if (which == 4) {
        pts = any_digit("points");
        sx_assume(pts.v < 6);
    }
    if (which == 5) {
        uint32_t k = sx_choice(3, "many points");
        pts = k == 0 ? dig{63, "63"} : k == 1 ? dig{64, "64"} : dig{65, "65"};
    }
    if (which == 6) x = any_digit("coordinate");
    std::string t = fmt == 1 ? "PRT1\n" + clusters.t + "\n" + np.t + "\n" : fmt == 2 ? "PRT2\n" + real.t + "\n" + clusters.t + "\n" + np.t + "\n" : "PRT1-AM\n" + clusters.t + "\n" + np.t + "\n" + real.t + "\n";
    const int nport = which == 2 ? 2 : 1, npts = which == 4 ? 5 : pts.v;
    // 'points' and 'portals' claim a number; the text holds this many
    for (int p = 0; p < nport; p++) {
        t += pts.t + " " + a.t + " " + b.t + " ";
        for (int i = 0; i < npts; i++) t += "(" + num(i % 4 * 8) + " " + num(i * i) + " " + (i ? num(-i) : x.t) + " ) ";
        t += "\n";
    }
    // with cluster 0 for every leaf
    if (fmt == 2) {
        for (int i = 0; i < 3; i++) t += num(i) + " ";
        t += "-1 -1 -1 -1";
    }
    if (fmt == 3) t += "0 0 0 0 0 0";
    memfs::put("m.prt", t.data(), t.size());
    bool consistent = (which != 4 || pts.v == npts) && (which != 2 || np.v == nport);
    bool valid = !(q2 && fmt != 1) && clusters.v > 0 && a.v >= 0 && a.v < clusters.v && b.v >= 0 && b.v < clusters.v && pts.v >= 3 && pts.v <= 64 && np.v >= 0;
    if (fmt == 2) valid = valid && (clusters.v == real.v || real.v >= 3);
    if (fmt == 3) valid = valid && real.v >= 0;
    bool ok = true;
    prtfile_t r;
    try {
        r = LoadPrtFile("m.prt", q2 ? &bspver_q2 : &bspver_q1);
    } catch (std::exception &) {
        ok = false;
    }
    if (!ok) {
        sx_assert(!(valid && consistent), "a valid portal file was refused");
        sx_reach("refused");
        return;
    }
    sx_assert(valid || (which == 2 && np.v == 0) || !consistent, "an invalid portal file was accepted");
    sx_assert(r.portalleafs >= 0 && r.portalleafs_real >= 0, "negative leaf count");
    sx_assert(r.portalleafs == clusters.v, "number of clusters");
    sx_assert(r.portalleafs_real == (q2 ? 0 : real.v), "number of leafs");
    sx_assert((int)r.portals.size() == np.v, "number of portals");
    for (auto &p : r.portals) {
        sx_assert(p.leafnums[0] == a.v && p.leafnums[1] == b.v, "leafs of a portal");
        sx_assert((int)p.winding.size() == pts.v, "points of a portal");
        for (int i = 0; i < (int)p.winding.size(); i++) sx_assert(p.winding[i][0] == i % 4 * 8 && p.winding[i][1] == i * i && p.winding[i][2] == (i ? -i : x.v), "a point of a portal");
    }
    if (!q2) {
        // entry 0 is the shared solid leaf
        sx_assert((int)r.dleafinfos.size() == real.v + 1, "size of the cluster map");
        for (int i = 0; i < real.v; i++) {
            int c = r.dleafinfos[i + 1].cluster;
            if (clusters.v == real.v) sx_assert(c == i, "identity cluster map");
            else sx_assert(c == 0, "cluster map");
        }
    }
    sx_reach("loaded");
}
// a PRT2 cluster map: every assignment of leafs to clusters
SX_ENTRY(clusters)
{
    const int nc = (int)sx_param(0), nl = (int)sx_param(1);
    const int fmt = (int)sx_param(2);
    std::vector<int> c(nl);
    for (int i = 0; i < nl; i++) c[i] = (int)sx_choice(nc, "cluster");
    std::string t = fmt == 2 ? "PRT2\n" + num(nl) + "\n" + num(nc) + "\n0\n" : "PRT1-AM\n" + num(nc) + "\n0\n" + num(nl) + "\n";
    if (fmt == 2)
        for (int k = 0; k < nc; k++) {
            for (int i = 0; i < nl; i++)
                if (c[i] == k) t += num(i) + " ";
            t += "-1\n";
        }
    else
        for (int i = 0; i < nl; i++) t += num(c[i]) + "\n";
    memfs::put("m.prt", t.data(), t.size());
    prtfile_t r = LoadPrtFile("m.prt", &bspver_q1);
    sx_assert((int)r.dleafinfos.size() == nl + 1, "size of the cluster map");
    for (int i = 0; i < nl; i++) sx_assert(r.dleafinfos[i + 1].cluster == c[i], "cluster of a leaf");
    sx_reach("clusters");
}
// a valid file cut off anywhere is refused (or, if only white space is missing, loads the same)
SX_ENTRY(truncated)
{
    const int fmt = (int)sx_param(0);
    std::string t = fmt == 1 ? "PRT1\n2\n1\n" : fmt == 2 ? "PRT2\n3\n2\n1\n" : "PRT1-AM\n2\n1\n3\n";
    t += "3 0 1 (0 16 -8 ) (64 0 0 ) (0 64 0 ) \n";
    size_t need = t.size() - 2;
    if (fmt == 2) t += "0 1 -1\n2 -1\n";
    if (fmt == 3) t += "0\n0\n1\n";
    if (fmt > 1) need = t.size() - 1;
    uint8_t n = sx_any<uint8_t>("cut");
    sx_assume(n < t.size());
    t.resize(sx_concretize(n));
    memfs::put("m.prt", t.data(), t.size());
    bool ok = true;
    prtfile_t r;
    try {
        r = LoadPrtFile("m.prt", &bspver_q1);
    } catch (std::exception &) {
        ok = false;
    }
    sx_assert(ok == (t.size() >= need), "a truncated portal file was accepted, or a complete one refused");
    if (ok) {
        sx_assert(r.portals.size() == 1 && r.portals[0].winding.size() == 3, "portal of a complete file");
        if (fmt > 1) sx_assert(r.dleafinfos[3].cluster == 1, "cluster of a complete file");
        sx_reach("complete");
    } else
        sx_reach("cut");
}
// arbitrary bytes where a number is expected never hang or touch memory out of bounds
SX_ENTRY(bytes)
{
    const int at = (int)sx_param(0), n = (int)sx_param(1);
    std::string t = "PRT1\n2\n1\n3 0 1 (0 16 -8 ) (64 0 0 ) (0 64 0 ) \n";
    for (int i = 0; i < n; i++) t[at + i] = (char)sx_any<uint8_t>("byte");
    memfs::put("m.prt", t.data(), t.size());
    try {
        prtfile_t r = LoadPrtFile("m.prt", &bspver_q1);
        for (auto &p : r.portals) {
            sx_assert(p.leafnums[0] >= 0 && p.leafnums[0] < r.portalleafs && p.leafnums[1] >= 0 && p.leafnums[1] < r.portalleafs, "leaf of a portal out of range");
            sx_assert(p.winding.size() >= 3 && p.winding.size() <= 64, "portal with an invalid number of points");
        }
        sx_reach("some");
    } catch (std::exception &) {
        sx_reach("none");
    }
}
SX_ENTRY(missing)
{
    bool ok = true;
    if (sx_bool("empty")) memfs::put("m.prt", "", 0);
    try {
        LoadPrtFile("m.prt", &bspver_q1);
    } catch (std::exception &) {
        ok = false;
    }
    sx_assert(!ok, "a missing or empty portal file was accepted");
    sx_reach("missing");
}
// a leaf or cluster number outside its range in the cluster map is refused
SX_ENTRY(badmap)
{
    const int fmt = (int)sx_param(0), nl = (int)sx_param(1), nc = (int)sx_param(2), at = (int)sx_param(3);
    dig d = any_digit("number", false);
    std::string t = fmt == 2 ? "PRT2\n" + num(nl) + "\n" + num(nc) + "\n0\n" : "PRT1-AM\n" + num(nc) + "\n0\n" + num(nl) + "\n";
    if (fmt == 2)
        for (int k = 0; k < nc; k++) {
            if (k == at) t += d.t + " ";
            t += "-1\n";
        }
    else
        for (int i = 0; i < nl; i++) t += (i == at ? d.t : std::string("0")) + "\n";
    memfs::put("m.prt", t.data(), t.size());
    bool ok = true;
    prtfile_t r;
    try {
        r = LoadPrtFile("m.prt", &bspver_q1);
    } catch (std::exception &) {
        ok = false;
    }
    sx_assert(ok == (d.v < (fmt == 2 ? nl : nc)), "a number outside the cluster map's range was accepted, or a valid one refused");
    if (ok) {
        sx_assert((int)r.dleafinfos.size() == nl + 1, "size of the cluster map");
        for (int i = 0; i < nl; i++) sx_assert(r.dleafinfos[i + 1].cluster == (fmt == 2 ? (i == d.v ? at : 0) : (i == at ? d.v : 0)), "cluster of a leaf");
        sx_reach("in range");
    } else
        sx_reach("out of range");
}
