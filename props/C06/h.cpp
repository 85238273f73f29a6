// Saving and resuming the state of vis.
#include "sx.h"
#include "memfs.h"
#include <vis/vis.hh>
#include <common/bspfile.hh>
#include <cstring>

static void world(int np, int leaf_count)
{
    vis_reset();
    numportals = np;
    portalleafs = leaf_count;
    portals.resize(np * 2);
    portalfile = "m.prt";
    statefile = "m.vis";
    statetmpfile = "m.vi0";
    memfs::put("m.prt", "x", 1);
}
struct saved
{
    int status, might_n, see_n;
    std::vector<uint8_t> might, vis;
};
static void put_bits(leafbits_t &b, int n, const std::vector<uint8_t> &v)
{
    b.resize(n);
    for (int i = 0; i < n; i++)
        if ((v[i >> 3] >> (i & 7)) & 1) b[i] = true;
}
static bool same_bits(const leafbits_t &b, int n, const std::vector<uint8_t> &v)
{
    if ((int)b.size() != n) return false;
    bool ok = true;
    for (int i = 0; i < n; i++) ok &= (uint8_t)b[i] == ((v[i >> 3] >> (i & 7)) & 1);
    return ok;
}
// fills in whole words, as the flow code leaves them
static void words(leafbits_t &b, int n, const std::vector<uint8_t> &v)
{
    b.resize(n);
    for (int i = 0; i < (n + 7) / 8; i++) b.data()[i / 4] |= (uint32_t)v[i] << (8 * (i % 4));
}
// what is saved is what is loaded; a portal that was in progress starts again
SX_ENTRY(resume)
{
    const int np = 1, leafn = (int)sx_param(0), nb = (leafn + 7) / 8;
    const int sym = (int)sx_param(1); // bit set of the bytes that are symbolic
    world(np, leafn);
    std::vector<saved> sv(np * 2);
    for (int p = 0; p < np * 2; p++) {
        auto &s = sv[p];
        s.status = p ? pstat_done : (int)sx_choice(3, "status");
        s.might_n = sx_any<int>("nummightsee");
        s.see_n = sx_any<int>("numcansee");
        s.might.assign(nb, p ? 0xff : 0x00);
        s.vis.assign(nb, p ? 0x00 : 0xff);
        auto &target = p ? s.vis : s.might;
        for (int i = 0; i < nb; i++)
            if (sym >> i & 1) target[i] = sx_any<uint8_t>("bits");
        if (leafn & 7) {
            s.might[nb - 1] &= (1 << (leafn & 7)) - 1;
            s.vis[nb - 1] &= (1 << (leafn & 7)) - 1;
        }
        portals[p].status = (pstatus_t)s.status;
        portals[p].nummightsee = s.might_n;
        portals[p].numcansee = s.see_n;
        words(portals[p].mightsee, leafn, s.might);
        words(portals[p].visbits, leafn, s.vis);
    }
    memfs::put("m.vis", "old", 3);
    SaveVisState();
    sx_assert(memfs::find("m.vis") && !memfs::find("m.vi0"), "the state file was not put in place");
    // as another process would find it, possibly after a crash between removing the old and renaming the new file
    bool tmp = sx_bool("crash before rename");
    if (tmp) memfs::find("m.vis")->name = "m.vi0";
    portals.clear();
    portals.resize(np * 2);
    sx_assert(LoadVisState(), "a freshly saved state was not loaded");
    for (int p = 0; p < np * 2; p++) {
        auto &q = portals[p];
        sx_assert(q.status == (sv[p].status == pstat_working ? pstat_none : (pstatus_t)sv[p].status), "portal status after resuming");
        sx_assert((q.nummightsee == sv[p].might_n) & (q.numcansee == sv[p].see_n), "counters after resuming");
        sx_assert(same_bits(q.mightsee, leafn, sv[p].might), "might-see bits after resuming");
        if (sv[p].status == pstat_done) sx_assert(same_bits(q.visbits, leafn, sv[p].vis), "visible bits after resuming");
        else {
            sx_assert(same_bits(q.visbits, leafn, std::vector<uint8_t>(nb)), "an unfinished portal has visible bits");
        }
    }
    sx_reach("resumed");
}
// an arbitrary state file is refused or loaded, without touching memory outside the rows
SX_ENTRY(corrupt)
{
    const int leafn = (int)sx_param(0), np = 1, nb = (leafn + 7) / 8, body = (int)sx_param(1), cut = (int)sx_param(2);
    world(np, leafn);
    std::vector<uint8_t> d;
    auto p32 = [&](uint32_t x) { for (int i = 0; i < 4; i++) d.push_back((uint8_t)(x >> (8 * i))); };
    if (cut < 0) {
        // any header
        uint32_t h[5];
        sx_symbolic(h, sizeof h, "header");
        for (uint32_t x : h) p32(x);
    } else {
        p32('T' << 24 | 'Y' << 16 | 'R' << 8 | '1');
        p32(np); p32(leafn); p32(0); p32(0);
    }
    for (int p = 0; p < 2; p++) {
        p32(sx_choice(3, "status"));
        p32(sx_any<uint32_t>("might")); p32(p ? 0 : sx_any<uint32_t>("vis"));
        p32(1); p32(1);
        for (int i = 0; i < body; i++) d.push_back(sx_any<uint8_t>("body"));
    }
    if (cut > 0) {
        uint32_t n = sx_any<uint8_t>("cut");
        sx_assume(n <= d.size());
        d.resize(sx_concretize(n));
    }
    memfs::put("m.vis", d.data(), d.size());
    try {
        if (LoadVisState()) {
            for (auto &q : portals) {
                sx_assert((int)q.mightsee.size() == leafn && (int)q.visbits.size() == leafn, "row size after loading");
                sx_assert((int)q.status == pstat_none || q.status == pstat_done, "portal status after loading");
            }
            // every row must have come from the file
            sx_assert(d.size() >= 20 + 2 * 20, "a truncated state file was accepted");
            sx_reach("accepted");
        }
    } catch (std::exception &) {
        sx_reach("refused");
    }
}
// a state file of another map is refused
SX_ENTRY(mismatch)
{
    world(2, 9);
    for (auto &p : portals) {
        p.mightsee.resize(9);
        p.visbits.resize(9);
        p.status = pstat_done;
    }
    SaveVisState();
    int np = sx_range<int>(1, 3, "portals"), nl = sx_range<int>(7, 11, "leafs");
    np = (int)sx_concretize(np);
    nl = (int)sx_concretize(nl);
    numportals = np;
    portalleafs = nl;
    portals.clear();
    portals.resize(np * 2);
    bool ok = true;
    try {
        LoadVisState();
    } catch (std::exception &) {
        ok = false;
    }
    sx_assert(ok == (np == 2 && nl == 9), "state of a different portal file accepted, or its own state refused");
    sx_reach("mismatch");
}
// the disk fills up while saving: the previous state is still there
SX_ENTRY(disk_full)
{
    world(1, 9);
    for (auto &p : portals) {
        p.mightsee.resize(9);
        p.visbits.resize(9);
        p.status = pstat_done;
    }
    portals[0].visbits[3] = true;
    SaveVisState();
    std::vector<char> first = memfs::find("m.vis")->data;
    portals[1].visbits[4] = true;
    uint32_t room = sx_any<uint8_t>("room");
    sx_assume(room <= first.size() + 4);
    memfs::write_budget = (int)sx_concretize(room);
    try {
        SaveVisState();
    } catch (std::exception &) {
    }
    memfs::write_budget = -1;
    portals.clear();
    portals.resize(2);
    bool loaded = false;
    try {
        loaded = LoadVisState();
    } catch (std::exception &) {
        sx_fail("no usable state is left after the disk was full");
    }
    sx_assert(loaded, "no state is left after the disk was full");
    sx_assert(portals[0].visbits[3] && !portals[0].visbits[4], "the state left behind is neither the old nor the new one");
    sx_reach("disk full");
}
SX_ENTRY(clean)
{
    world(1, 3);
    memfs::put("m.vis", "x", 1);
    CleanVisState();
    sx_assert(!memfs::find("m.vis"), "state file not removed");
    CleanVisState();
    vis_options.nostate.set_value(true, settings::source::COMMANDLINE);
    memfs::put("m.vis", "x", 1);
    sx_assert(!LoadVisState(), "-nostate loads a state file");
    sx_reach("clean");
}
