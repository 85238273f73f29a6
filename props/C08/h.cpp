// vis handles the portals in any order and with any overlap of threads, and removes a leaf from what a
// portal might see only when the leaf cannot be seen. The geometric part (PortalFlow, BasePortalVis) is
// replaced here by an arbitrary one that is sound for an arbitrary symmetric 'sees' relation.
#include "sx.h"
#include "memfs.h"
#include <vis/vis.hh>
#include <common/bspfile.hh>
#include <cstring>
#include <tbb/par_order.h>

static std::string num(int n)
{
    if (n < 10) return std::string(1, (char)('0' + n));
    return num(n / 10) + (char)('0' + n % 10);
}
static int nleafs, nport; // nport: memory portals
static std::vector<std::array<int, 2>> graph;
static uint64_t truth[8], base_bits[8], flow_extra[8];
static uint64_t all; // the leafs that have portals
static int flows[8], overlap_budget, order_at;

static int home(int p) { return graph[p / 2][p & 1]; } // the leaf the portal is on
static int leads(int p) { return graph[p / 2][1 - (p & 1)]; }

static void put(leafbits_t &b, uint64_t v)
{
    b.data()[0] = (uint32_t)v;
    if (nleafs > 32) b.data()[1] = (uint32_t)(v >> 32);
}
static uint64_t get(const leafbits_t &b) { return b.data()[0] | (nleafs > 32 ? (uint64_t)b.data()[1] << 32 : 0); }
static int count(uint64_t v)
{
    int n = 0;
    for (int i = 0; i < nleafs; i++)
        if (all >> i & 1) n += (int)((v >> i) & 1);
    return n;
}
void BasePortalVis()
{
    for (int p = 0; p < nport; p++) {
        sx_assert(portals[p].leaf == leads(p), "a portal leads into the wrong leaf");
        portals[p].mightsee.resize(portalleafs);
        put(portals[p].mightsee, base_bits[p]);
        portals[p].nummightsee = count(base_bits[p]);
    }
}
visstats_t PortalFlow(visportal_t *p)
{
    const int i = (int)(p - portals.data());
    flows[i]++;
    sx_assert(p->status == pstat_working, "a portal is handled that nobody has taken");
    const uint64_t might = get(p->mightsee);
    sx_assert((truth[i] & ~might) == 0, "a visible leaf was removed from what a portal might see");
    if (overlap_budget > 0 && sx_bool("overlap")) {
        overlap_budget--;
        sx_par_run_other();
    }
    sx_assert(get(p->mightsee) == might, "what a portal might see changed while it was being worked on");
    sx_assert(p->status == pstat_working, "a portal was completed by another thread");
    p->visbits.resize(portalleafs);
    put(p->visbits, might & (truth[i] | flow_extra[i]));
    p->numcansee = count(get(p->visbits));
    return {};
}
static uint64_t any_leafs(const char *name)
{
    const uint64_t x = sx_any<uint8_t>(name);
    return nleafs > 32 ? (x & 3) | (x >> 2 & 3) << 32 : x & all;
}
static void build()
{
    using G = std::vector<std::array<int, 2>>;
    switch ((int)sx_param(0)) {
        case 0: graph = G{{0, 1}, {1, 2}}; nleafs = 3; break;
        case 1: graph = G{{0, 1}, {0, 1}, {1, 2}}; nleafs = 3; break; // two portals between a pair
        case 2: graph = G{{0, 1}, {1, 2}, {2, 0}}; nleafs = 3; break; // ring
        case 3: graph = G{{0, 1}, {1, 2}, {2, 3}}; nleafs = 4; break; // row
        case 4: graph = G{{0, 1}, {0, 2}, {0, 3}}; nleafs = 4; break; // star
        case 5: graph = G{{0, 1}, {1, 2}, {2, 3}, {3, 0}}; nleafs = 4; break; // ring
        case 6: graph = G{{0, 1}, {1, 2}, {2, 3}, {3, 4}}; nleafs = 5; break; // row
        case 7: graph = G{{0, 33}, {33, 1}, {1, 32}}; nleafs = 34; break; // in two words
    }
    nport = (int)graph.size() * 2;
    all = nleafs > 32 ? 0x300000003ull : (1ull << nleafs) - 1;
    const int nfree = (int)sx_param(1); // portals with symbolic rows
    for (int p = 0; p < nport; p++) {
        truth[p] = p < nfree || (int)sx_param(2) >> p & 1 ? any_leafs("sees") : 0;
        base_bits[p] = truth[p] | ((int)sx_param(3) >> p & 1 ? any_leafs("might see") : all);
        flow_extra[p] = (int)sx_param(4) >> p & 1 ? any_leafs("seen needlessly") : 0;
        // the neighbour leaf can be seen
        truth[p] |= 1ull << leads(p);
        base_bits[p] |= truth[p];
        // counted, so one path for each
        if ((int)sx_param(3) >> p & 1) base_bits[p] = sx_concretize(base_bits[p]);
        // a portal does not look back into its own leaf
        truth[p] &= ~(1ull << home(p));
    }
    // what leafs see is symmetric
    uint64_t sees[40] = {};
    for (int p = 0; p < nport; p++) sees[home(p)] |= truth[p];
    uint64_t ok = 1;
    for (int a = 0; a < nleafs; a++)
        for (int b = 0; b < a; b++) ok &= ((sees[a] >> b) & 1) == ((sees[b] >> a) & 1);
    sx_assume((int)ok);
}
SX_ENTRY(any_schedule)
{
    build();
    overlap_budget = (int)sx_param(5);
    mbsp_t b{};
    b.loadversion = &bspver_q2;
    b.dentdata = "{\n\"classname\" \"worldspawn\"\n}\n";
    b.dmodels.resize(1);
    b.dleafs.resize(nleafs + 1);
    for (int i = 0; i <= nleafs; i++) b.dleafs[i].cluster = i - 1;
    bspdata_t bd{.version = &bspver_generic, .file = "m.bsp", .bsp = b};
    ConvertBSPFormat(&bd, b.loadversion);
    WriteBSPFile("m.bsp", &bd);
    std::string t = "PRT1\n" + num(nleafs) + "\n" + num(nport / 2) + "\n";
    for (auto &g : graph) t += "4 " + num(g[0]) + " " + num(g[1]) + " (0 0 0 ) (0 64 0 ) (0 64 64 ) (0 0 64 )\n";
    memfs::put("m.prt", t.data(), t.size());
    const char *argv[] = {"vis", "-noambient", "-nodefaultpaths", "m.bsp"};
    vis_main(4, argv);
    for (int p = 0; p < nport; p++) {
        sx_assert(flows[p] == 1, "a portal was not handled exactly once");
        sx_assert(portals[p].status == pstat_done, "a portal is not done");
        sx_assert((truth[p] & ~get(portals[p].visbits)) == 0, "a visible leaf is missing from a portal's row");
    }
    sx_reach("scheduled");
}
