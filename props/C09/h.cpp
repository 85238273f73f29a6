// The flow through the portals (vis/flow.cc) with an arbitrary outcome of every geometric clip.
// The clipper lives in vis.cc and is replaced here: along one chain of portals, the true line of sight, it never
// clips a winding away; everywhere else it does what the solver likes.
#include "sx.h"
#include <vis/vis.hh>
#include <common/cmdlib.hh>
#include <cstring>

int numportals, portalleafs, portalleafs_real;
std::vector<visportal_t> portals;
std::vector<leaf_t> leafs;
settings::vis_settings vis_options;
namespace settings
{
setting_group vis_output_group{"Output", 30, expected_source::commandline};
setting_group vis_advanced_group{"Advanced", 40, expected_source::commandline};
void vis_settings::initialize(int, const char **) {}
} // namespace settings

static std::vector<std::array<int, 2>> graph;
static int home(int p) { return graph[p / 2][p & 1]; }
static int leads(int p) { return graph[p / 2][1 - (p & 1)]; }
static std::vector<int> chain; // the true line of sight
static std::vector<pstack_t *> route;
static int start, cuts, copies, budget_cuts, always_copy, calls;

static int index_of(const visportal_t *p) { return (int)(p - portals.data()); }
static bool on_chain(pstack_t &s)
{
    const int t = index_of(s.portal);
    if (!s.leaf) { // a target check
        for (int c : chain)
            if (c == t) return true;
        return false;
    }
    // the route so far
    size_t k = 0;
    while (k < route.size() && route[k] != &s) k++;
    route.resize(k);
    route.push_back(&s);
    if (route.size() >= chain.size()) return false;
    for (size_t i = 0; i < route.size(); i++)
        if (index_of(route[i]->portal) != chain[i + 1]) return false;
    return true;
}
viswinding_t *AllocStackWinding(pstack_t &stack)
{
    for (size_t i = 0; i < STACK_WINDINGS; i++)
        if (!stack.windings_used[i]) {
            stack.windings_used[i] = true;
            return &stack.windings[i];
        }
    sx_fail("no free winding left on the stack");
}
void FreeStackWinding(viswinding_t *&w, pstack_t &stack)
{
    for (size_t i = 0; i < STACK_WINDINGS; i++)
        if (w == &stack.windings[i]) {
            sx_assert(stack.windings_used[i], "a winding is freed twice");
            stack.windings_used[i] = false;
            memset((void *)w, 0xff, sizeof *w); // nobody may look at it any more
            w = nullptr;
            return;
        }
}
viswinding_t *ClipStackWinding(visstats_t &, viswinding_t *in, pstack_t &stack, const qplane3d &split)
{
    calls++;
    sx_assert(in != nullptr, "nothing to clip");
    sx_assert(in->numpoints >= 3 && in->numpoints <= MAX_WINDING_FIXED, "clipping an invalid winding");
    sx_assert(split.normal[0] == split.normal[0] && split.dist == split.dist, "clipping by an invalid plane");
    const bool keep = on_chain(stack);
    bool copy = always_copy;
    if (!keep && budget_cuts && sx_bool("clipped away")) {
        budget_cuts--;
        cuts++;
        FreeStackWinding(in, stack);
        return nullptr;
    }
    if (!copy && copies && sx_bool("clipped")) {
        copies--;
        copy = true;
    }
    if (!copy) return in;
    viswinding_t *n = AllocStackWinding(stack);
    n->origin = in->origin;
    n->radius = in->radius;
    n->numpoints = in->numpoints;
    for (size_t i = 0; i < in->numpoints; i++) n->points[i] = in->points[i];
    FreeStackWinding(in, stack);
    return n;
}
// portal i: a square in a plane of its own direction
static void geometry(int i)
{
    static const double dir[8][2] = {{1, 0}, {0.8, 0.6}, {0.6, 0.8}, {0.28, 0.96}, {0.96, 0.28}, {0.8, -0.6}, {0.96, -0.28}, {0.6, -0.8}};
    const double x = dir[i][0], y = dir[i][1], d = 64 * (i + 1);
    for (int side = 0; side < 2; side++) {
        visportal_t &p = portals[2 * i + side];
        const double s = side ? -1 : 1;
        p.plane = qplane3d{{x * s, y * s, 0}, d * s};
        p.winding = viswinding_t::new_heap_winding(4);
        p.winding->numpoints = 4;
        for (int k = 0; k < 4; k++) {
            const double u = (k == 1 || k == 2) ? 16 : -16, v = k >= 2 ? 16 : -16;
            p.winding->points[side ? 3 - k : k] = qvec3d(x * d - y * u, y * d + x * u, v);
        }
        p.winding->origin = qvec3d(x * d, y * d, 0);
        p.winding->radius = 32;
        p.leaf = leads(2 * i + side);
        leafs[home(2 * i + side)].portals.push_back(&p);
    }
}
static void make_graph(int which)
{
    using G = std::vector<std::array<int, 2>>;
    switch (which) {
        case 0: graph = G{{0, 1}, {1, 2}, {2, 3}}; chain = {0, 2, 4}; break; // row
        case 1: graph = G{{0, 1}, {1, 2}, {2, 3}, {1, 3}}; chain = {0, 2, 4}; break; // with a short cut
        case 2: graph = G{{0, 1}, {1, 3}, {1, 2}, {2, 3}, {3, 4}}; chain = {0, 4, 6, 8}; break; // behind a diamond
        case 3: graph = G{{0, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {5, 6}}; chain = {0, 8, 10}; break; // star
        case 4: graph = G{{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 5}}; chain = {0, 2, 4, 6, 8}; break; // long row
        case 5: graph = G{{0, 1}, {1, 2}, {1, 2}, {2, 3}}; chain = {0, 4, 6}; break; // two portals between a pair
        case 6: graph = G{{32, 33}, {33, 0}, {0, 1}, {33, 1}}; chain = {0, 2, 4}; break; // in two words
        case 7: graph = G{{0, 1}, {1, 2}, {2, 3}, {2, 3}, {3, 4}}; chain = {0, 2, 6, 8}; break; // through the second of two portals
        case 8: graph = G{{0, 1}, {1, 2}, {2, 3}, {3, 4}, {3, 4}}; chain = {0, 2, 4, 8}; break; // the same, further away
        case 9: graph = G{{0, 1}, {3, 4}, {3, 4}, {1, 2}, {2, 3}}; chain = {0, 6, 8, 4}; break; // listed in another order
    }
    numportals = (int)graph.size();
    portalleafs = 0;
    for (auto &g : graph) portalleafs = std::max(portalleafs, std::max(g[0], g[1]) + 1);
    portals.clear();
    portals.resize(numportals * 2);
    leafs.clear();
    leafs.resize(portalleafs);
    for (int i = 0; i < numportals; i++) geometry(i);
    start = chain[0];
    if (sx_param(6) && chain.size() > (size_t)sx_param(6)) chain.resize(sx_param(6)); // less is known to be visible
}
static void put(leafbits_t &b, uint64_t v)
{
    b.resize(portalleafs);
    b.data()[0] = (uint32_t)v;
    if (portalleafs > 32) b.data()[1] = (uint32_t)(v >> 32);
}
static uint64_t get(const leafbits_t &b) { return b.data()[0] | (portalleafs > 32 ? (uint64_t)b.data()[1] << 32 : 0); }
static uint64_t bit(int l) { return 1ull << l; }
static uint64_t any_leafs(const char *name)
{
    const uint64_t x = sx_any<uint8_t>(name);
    return portalleafs > 32 ? (x & 3) | (x >> 2 & 3) << 32 : x & (bit(portalleafs) - 1);
}
static uint64_t ahead(int p)
{
    uint64_t r = bit(leads(p));
    for (int n = 0; n < numportals; n++)
        for (int q = 0; q < 2 * numportals; q += 2)
            if (r >> home(q) & 1) r |= bit(leads(q));
    return r;
}
// what is visible if nothing is ever clipped away; no branches on symbolic values
static void reach(int p, uint64_t may, uint64_t been, uint64_t cond, uint64_t &out, const std::vector<uint64_t> &row)
{
    out |= cond << leads(p);
    been |= bit(leads(p));
    for (int q = 0; q < 2 * numportals; q++)
        if (home(q) == leads(p) && q != (p ^ 1) && !(been >> leads(q) & 1)) reach(q, may & row[q], been, cond & (may >> leads(q)) & 1, out, row);
}
SX_ENTRY(flow)
{
    make_graph((int)sx_param(0));
    vis_options.level.set_value((int)sx_param(1), settings::source::COMMANDLINE);
    vis_options.targetratio.set_value(sx_param(2) * 0.5, settings::source::COMMANDLINE);
    const int symrows = (int)sx_param(3); // portals with symbolic rows
    budget_cuts = (int)sx_param(4);
    copies = (int)sx_param(5);
    always_copy = copies < 0;
    if (copies < 0) copies = 0;
    uint64_t all = 0;
    for (auto &g : graph) all |= bit(g[0]) | bit(g[1]);
    std::vector<uint64_t> row(2 * numportals), might(2 * numportals);
    for (int p = 0; p < 2 * numportals; p++) {
        const int st = p != start && (symrows >> p & 1) ? (int)sx_choice(3, "status") : pstat_none;
        const bool done = st == pstat_done;
        uint64_t need = bit(leads(p));
        for (size_t i = 0; i < chain.size(); i++)
            if (chain[i] == p)
                for (size_t j = i; j < chain.size(); j++) need |= bit(leads(chain[j]));
        row[p] = symrows >> p & 1 ? any_leafs("row") | need : sx_param(7) ? ahead(p) | need : all;
        might[p] = row[p];
        portals[p].status = p == start ? pstat_working : (pstatus_t)st;
        if (done) {
            might[p] = all;
            put(portals[p].visbits, row[p]);
        }
        if (st == pstat_working) put(portals[p].visbits, 0); // another thread is at it and has found nothing yet
        put(portals[p].mightsee, might[p]);
    }
    visportal_t &p0 = portals[start];
    std::vector<int> status;
    for (auto &p : portals) status.push_back(p.status);
    PortalFlow(&p0);
    const uint64_t vis = get(p0.visbits);
    int n = 0;
    for (int l = 0; l < portalleafs; l++)
        if (all >> l & 1) n += (int)((vis >> l) & 1);
    sx_assert((vis & ~all) == 0, "a leaf without portals is visible");
    sx_assert(p0.numcansee == n, "the number of visible leafs is not the number of bits in the row");
    for (int c : chain) sx_assert(vis >> leads(c) & 1, "a leaf that is seen along a line of sight is not visible");
    sx_assert((vis & ~(row[start] | bit(leads(start)))) == 0, "a leaf is visible that was ruled out before");
    uint64_t most = 0;
    reach(start, row[start], 0, 1, most, row);
    sx_assert((vis & ~most) == 0, "a leaf is visible that no chain of portals leads to");
    if (!cuts) sx_assert(vis == most, "nothing was clipped away, but a leaf is not visible");
    for (int p = 0; p < 2 * numportals; p++) {
        sx_assert(get(portals[p].mightsee) == might[p], "what a portal might see was changed by the flow");
        sx_assert(p == start || portals[p].status == status[p], "the status of another portal was changed");
        sx_assert(portals[p].winding->numpoints == 4, "the winding of a portal was changed");
    }
    if (!budget_cuts && (int)sx_param(4)) sx_reach("cut");
    sx_reach("flowed");
}
