// The geometric primitives of vis: the first estimate of what a portal might see, and the clipping of windings
// on the recursion's small stack. Planes and windings have fixed directions and shapes; distances are symbolic.
#include "sx.h"
#include <vis/vis.hh>
#include <common/cmdlib.hh>
#include <cmath>
#include <cstring>

static std::vector<std::array<int, 2>> graph;
static int home(int p) { return graph[p / 2][p & 1]; }
static int leads(int p) { return graph[p / 2][1 - (p & 1)]; }
struct geo
{
    int dir; // 0 x, 1 y, 2 z
    double c[3]; // centre
    double r; // half size
};
static void set_portal(int i, const geo &g, double dist, bool along)
{
    for (int side = 0; side < 2; side++) {
        visportal_t &p = portals[2 * i + side];
        const double s = (side ? -1 : 1) * (along ? 1 : -1);
        qvec3d n{};
        n[g.dir] = s;
        p.plane = qplane3d{n, dist * s};
        p.winding = viswinding_t::new_heap_winding(4);
        const int a = (g.dir + 1) % 3, b = (g.dir + 2) % 3;
        for (int k = 0; k < 4; k++) {
            const int kk = side ? 3 - k : k;
            qvec3d v(g.c[0], g.c[1], g.c[2]);
            v[a] += (kk == 1 || kk == 2) ? g.r : -g.r;
            v[b] += kk >= 2 ? g.r : -g.r;
            p.winding->points[k] = v;
        }
        p.winding->set_winding_sphere();
        p.leaf = leads(2 * i + side);
        leafs[home(2 * i + side)].portals.push_back(&p);
    }
}
static double at(const visportal_t &p, const qvec3d &v)
{
    double d = -p.plane.dist;
    for (int k = 0; k < 3; k++)
        if (p.plane.normal[k] != 0) d += p.plane.normal[k] * v[k];
    return d;
}
// no branches on symbolic values
static uint32_t all_on(const visportal_t &p, const viswinding_t &w, double limit)
{
    uint32_t r = 1;
    for (size_t i = 0; i < w.size(); i++) {
        const double d = at(p, w[i]);
        r &= (uint32_t)(d < limit) & (uint32_t)(d > -limit);
    }
    return r;
}
static uint32_t some(const visportal_t &p, const viswinding_t &w, double above, double below, bool want_above)
{
    uint32_t r = 0;
    for (size_t i = 0; i < w.size(); i++) {
        const double d = at(p, w[i]);
        r |= want_above ? (uint32_t)(d > above) : (uint32_t)(d < below);
    }
    return r;
}
static uint32_t near_by(const visportal_t &p, const viswinding_t &w, double limit)
{
    uint32_t r = 0;
    for (size_t i = 0; i < w.size(); i++) {
        const double d = at(p, w[i]);
        r |= (uint32_t)(d < limit) & (uint32_t)(d > -limit);
    }
    return r;
}
SX_ENTRY(estimate)
{
    using G = std::vector<std::array<int, 2>>;
    switch ((int)sx_param(0)) {
        case 0: graph = G{{0, 1}, {1, 2}}; break;
        case 1: graph = G{{0, 1}, {1, 2}, {2, 3}}; break;
        case 2: graph = G{{0, 1}, {1, 2}, {0, 2}}; break;
        case 3: graph = G{{0, 32}, {32, 33}, {33, 1}}; break;
    }
    const int shape = (int)sx_param(1), sym = (int)sx_param(2);
    const double visdist = sx_param(3);
    vis_reset();
    vis_options.visdist.set_value(visdist, settings::source::COMMANDLINE);
    numportals = (int)graph.size();
    portalleafs = 0;
    for (auto &g : graph) portalleafs = std::max(portalleafs, std::max(g[0], g[1]) + 1);
    portals.resize(numportals * 2);
    leafs.resize(portalleafs);
    static const geo shapes[3][3] = {
        {{0, {64, 0, 0}, 16}, {0, {128, 8, 0}, 16}, {0, {192, 0, 8}, 16}}, // a row of doors
        {{0, {64, 0, 0}, 16}, {1, {96, 32, 0}, 16}, {0, {64, 64, 0}, 16}}, // around a corner
        {{0, {64, 0, 0}, 16}, {2, {96, 0, -16}, 8}, {2, {96, 0, 16}, 8}}, // holes in floor and ceiling
    };
    for (int i = 0; i < numportals; i++) {
        const geo &g = shapes[shape][i];
        double d = g.c[g.dir];
        if (sym >> i & 1) {
            d = sx_any<double>("distance");
            sx_assume((d >= -256) & (d <= 256));
        }
        set_portal(i, g, d, !sx_param(4));
    }
    BasePortalVis();
    constexpr double margin = 0.01;
    for (int p = 0; p < 2 * numportals; p++) {
        const visportal_t &P = portals[p];
        // portals that surely cannot be ruled out: each has a part in front of the other's plane
        std::vector<uint64_t> see(2 * numportals);
        for (int q = 0; q < 2 * numportals; q++) {
            if (q == p) continue;
            const visportal_t &Q = portals[q];
            see[q] = some(P, *Q.winding, VIS_ON_EPSILON + margin, 0, true) & some(Q, *P.winding, 0, -VIS_ON_EPSILON - margin, false);
            // a very thin leaf between portals that face the same way
            if (P.plane.normal == Q.plane.normal) see[q] |= all_on(P, *Q.winding, VIS_ON_EPSILON - margin) & all_on(Q, *P.winding, VIS_ON_EPSILON - margin);
            if (visdist > 0) see[q] &= near_by(P, *Q.winding, visdist - margin) & near_by(Q, *P.winding, visdist - margin);
        }
        uint64_t need = 1ull << leads(p);
        for (int round = 0; round < portalleafs && round < 4; round++)
            for (int q = 0; q < 2 * numportals; q++) need |= (see[q] & (need >> home(q)) & 1) << leads(q);
        uint64_t got = P.mightsee.data()[0];
        if (portalleafs > 32) got |= (uint64_t)P.mightsee.data()[1] << 32;
        sx_assert((need & ~got) == 0, "a leaf that might be visible is ruled out");
        int n = 0;
        for (int l = 0; l < portalleafs; l++) n += (int)((got >> l) & 1);
        sx_assert(P.nummightsee == n, "the number of leafs that might be visible is wrong");
        sx_assert(!(got >> portalleafs), "bits beyond the last leaf");
    }
    sx_reach("estimated");
}
// One clip of a convex polygon of n points, held on the recursion's stack or elsewhere
SX_ENTRY(clip)
{
    const int n = (int)sx_param(0), axis = (int)sx_param(1);
    const bool local = sx_param(2), neg = sx_param(3), exact = sx_param(4);
    std::vector<qvec3d> pts;
    for (int i = 0; i < n; i++) {
        // two parabolas, not symmetric
        const int h = (n + 1) / 2;
        if (i < h) {
            const double t = -1 + 2.0 * i / h;
            pts.push_back(qvec3d(-32 + 24 * t * t, 32 * t, 4 * t));
        } else {
            const double t = -1 + 2.0 * (i - h) / (n - h);
            pts.push_back(qvec3d(40 - 24 * t * t, -32 * t + 1, -4 * t));
        }
    }
    auto heap = viswinding_t::new_heap_winding(n);
    for (int i = 0; i < n; i++) heap->points[i] = pts[i];
    heap->set_winding_sphere();
    auto stack_ = std::make_unique<pstack_t>();
    pstack_t &stack = *stack_;
    for (auto &u : stack.windings_used) u = false;
    viswinding_t *in = heap.get();
    if (local) {
        in = AllocStackWinding(stack);
        in->numpoints = n;
        for (int i = 0; i < n; i++) in->points[i] = pts[i];
        in->origin = heap->origin;
        in->radius = heap->radius;
    }
    qplane3d split;
    split.normal = {};
    split.normal[axis] = neg ? -1 : 1;
    if (exact) {
        split.dist = (int)sx_concretize(sx_range<int>(-90, 90, "distance")) * 0.5;
    } else {
        split.dist = sx_any<double>("distance");
        sx_assume((split.dist >= -80) & (split.dist <= 80));
    }
    visstats_t stats;
    viswinding_t *const was = in;
    viswinding_t *out = ClipStackWinding(stats, in, stack, split);
    int used = 0;
    for (auto u : stack.windings_used) used += u;
    // what has to be left
    struct pt
    {
        int from;
        bool cross;
    };
    std::vector<pt> want;
    std::vector<int> side(n);
    bool front = false, behind = false, sloping = false;
    for (int i = 0; i < n; i++) {
        const double d = (neg ? -pts[i][axis] : pts[i][axis]) - split.dist;
        side[i] = d > VIS_ON_EPSILON ? 1 : d < -VIS_ON_EPSILON ? -1 : 0;
        front |= side[i] > 0;
        behind |= side[i] < 0;
    }
    sloping = front && behind;
    for (int i = 0; i < n; i++) {
        if (side[i] >= 0) want.push_back({i, false});
        if (side[i] * side[(i + 1) % n] < 0) want.push_back({i, true});
    }
    if (!out) {
        sx_assert(!front && behind, "a winding with a part in front of the plane was clipped away");
        sx_assert(used == 0, "a winding that was clipped away is not free");
        sx_reach("gone");
        return;
    }
    sx_assert(front || !behind, "a winding behind the plane was kept");
    bool same = out->size() == (size_t)n;
    if (out == was || !sloping) {
        // the sphere test may keep a winding that touches the plane
        sx_assert(used == (int)local, "a winding that was kept is free, or a spare one is not");
        for (int i = 0; i < n && same; i++) same = (*out)[i] == pts[i];
        sx_assert(same, "a winding that was kept has changed");
        if (sloping) {
            sx_assert(want.size() > MAX_WINDING_FIXED, "a part behind the plane was not clipped");
            sx_reach("toobig");
        }
        sx_reach("kept");
        return;
    }
    sx_assert(used == 1, "the clipped winding is not the only one in use");
    sx_assert(out->size() == want.size(), "number of points");
    sx_assert(out->origin == heap->origin && out->radius == heap->radius, "bounding sphere");
    for (size_t k = 0; k < want.size(); k++) {
        const qvec3d &v = (*out)[k], &a = pts[want[k].from], &b = pts[(want[k].from + 1) % n];
        if (!want[k].cross) {
            sx_assert(v == a, "a point on or in front of the plane was moved, or is out of order");
            continue;
        }
        sx_assert(v[axis] == (neg ? -split.dist : split.dist), "a point where the border crosses the plane is not on the plane");
        if (exact) {
            const double f = (v[axis] - a[axis]) / (b[axis] - a[axis]);
            for (int j = 0; j < 3; j++)
                sx_assert(fabs(v[j] - (a[j] + f * (b[j] - a[j]))) < 1e-6, "a point where the border crosses the plane is not on the border");
        }
    }
    sx_reach("clipped");
}
