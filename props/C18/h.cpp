// light: from lightmaps of any styles, colours and occlusion to the BSP's, .lit, .lux and BSPX lighting data.
#include <fstream>
#include "sx.h"
#include "memfs.h"
#define DirectLightFace real_DirectLightFace
#define PostProcessLightFace real_PostProcessLightFace
#include <light/ltface.cc>
#undef DirectLightFace
#undef PostProcessLightFace
void DirectLightFace(const mbsp_t *bsp, lightsurf_t &lightsurf, const settings::worldspawn_keys &cfg);
void PostProcessLightFace(const mbsp_t *bsp, lightsurf_t &lightsurf, const settings::worldspawn_keys &cfg);
#include <light/light.cc>
#include <light/write.cc>
#include <cstring>
#include <stdexcept>

// no ray is ever traced here
ray_source_info::ray_source_info(raystream_embree_base_t *r, const modelinfo_t *s, int m) : raystream(r), self(s), shadowmask(m) { sx_fail("a ray is traced"); }
RTCScene scene;
sceneinfo skygeom, solidgeom, filtergeom;

struct style_plan
{
    int style;
    float level;
    int slot;
};
struct face_plan
{
    std::vector<style_plan> styles;
    unsigned occluded = 0; // bit i: sample i
    std::vector<qvec3f> symbolic; // colours of the first samples of slot 0
};
static std::vector<face_plan> plan;
static int round_no;

static qvec3f colour(int f, const style_plan &p, int sample)
{
    if (p.slot == 0 && sample < plan[f].symbolic.size())
        return plan[f].symbolic[sample];
    if (p.level < 1)
        return qvec3f{p.level, p.level, p.level};
    return qvec3f{p.level + p.slot + (sample % 8), p.level + p.slot + round_no, p.level + p.slot + (sample % 8)};
}
void DirectLightFace(const mbsp_t *bsp, lightsurf_t &ls, const settings::worldspawn_keys &cfg)
{
    int f = (int)(ls.face - bsp->dfaces.data());
    for (size_t i = 0; i < ls.samples.size(); i++)
        ls.samples[i].occluded = i < 32 && (plan[f].occluded >> i & 1);
    for (const auto &p : plan[f].styles) {
        lightmap_t *lm = Lightmap_ForStyle(&ls.lightmapsByStyle, p.style, &ls);
        for (size_t i = 0; i < ls.samples.size(); i++) {
            lm->samples[i].color = colour(f, p, (int)i);
            lm->samples[i].direction = {0, 0, i % 2 ? 2.f : 1.f};
        }
        lm->style = p.style;
    }
}
void PostProcessLightFace(const mbsp_t *bsp, lightsurf_t &lightsurf, const settings::worldspawn_keys &cfg) { }

struct fixture
{
    bspdata_t data{};
    mbsp_t &bsp;
    fixture() : bsp(data.bsp.emplace<mbsp_t>()) { }
    void quad(float x, float y, float w, float h, int texinfo, int edges = 4)
    {
        float c[4][2] = {{x, y}, {x, y + h}, {x + w, y + h}, {x + w, y}};
        mface_t f{};
        f.planenum = 0;
        f.firstedge = (int)bsp.dsurfedges.size();
        f.numedges = edges;
        f.texinfo = texinfo;
        f.lightofs = -1;
        f.styles.fill(255);
        uint32_t v0 = (uint32_t)bsp.dvertexes.size();
        for (int i = 0; i < 4; i++)
            bsp.dvertexes.push_back({c[i][0], c[i][1], 0});
        for (uint32_t i = 0; i < (uint32_t)edges; i++) {
            bsp.dsurfedges.push_back((int)bsp.dedges.size());
            bsp.dedges.push_back({v0 + i, v0 + (i + 1) % 4});
        }
        bsp.dfaces.push_back(f);
    }
};
// faces: 0 and 1 in the world, 2 unlit (sky), 3 without area, 4 of a second model, 5 of no model
static void make_world(fixture &w, int game)
{
    static const bspversion_t *versions[] = {&bspver_q1, &bspver_hl, &bspver_q2};
    mbsp_t &bsp = w.bsp;
    bsp.loadversion = w.data.loadversion = versions[game];
    w.data.version = &bspver_generic;
    dplane_t p{};
    p.normal = {0, 0, 1};
    p.dist = 0;
    bsp.dplanes.push_back(p);
    bsp.dedges.push_back({0, 0});
    for (int i = 0; i < 2; i++) {
        mtexinfo_t t{};
        t.vecs.at(0, 0) = 1;
        t.vecs.at(1, 1) = -1;
        t.miptex = 0;
        if (i)
            t.flags.native = game == 2 ? Q2_SURF_SKY | Q2_SURF_NODRAW : TEX_SPECIAL;
        strcpy(t.texture.data(), i ? "sky1" : "wall");
        bsp.texinfo.push_back(t);
    }
    bsp.dtex.textures.resize(1);
    bsp.dtex.textures[0].name = "wall";
    w.quad(0, 0, 32, 16, 0);
    w.quad(64, 0, 16, 16, 0);
    w.quad(128, 0, 16, 16, 1);
    w.quad(192, 0, 16, 16, 0, 2);
    w.quad(256, 0, 16, 32, 0);
    w.quad(320, 0, 16, 16, 0);
    for (int i = 0; i < 2; i++) {
        mleaf_t l{};
        l.contents = i == 0 ? (game == 2 ? Q2_CONTENTS_SOLID : CONTENTS_SOLID) : (game == 2 ? 0 : CONTENTS_EMPTY);
        bsp.dleafs.push_back(l);
    }
    bsp2_dnode_t n{};
    n.planenum = 0;
    n.children = {-2, -1};
    bsp.dnodes.push_back(n);
    for (int i = 0; i < 2; i++) {
        dmodelh2_t m{};
        m.headnode[0] = i ? -2 : 0;
        m.firstface = i ? 4 : 0;
        m.numfaces = i ? 1 : 4;
        bsp.dmodels.push_back(m);
    }
    for (auto &m : bsp.dmodels)
        modelinfo.push_back(new modelinfo_t{&bsp, &m, 16});
    tracelist.push_back(modelinfo[0]);
    extended_texinfo_flags.resize(2);
}
static bool lit_face(int f) { return f == 0 || f == 1 || f == 4; }

static const int style_menu[] = {0, 5, 254, 255, 300, 3, 32, 1};
static const float level_menu[] = {0.25f, 20, 90, 20, 60};

struct expect
{
    std::vector<style_plan> stored; // in the order they must appear, up to equal brightness
    std::vector<float> avg;
};
static float average(int f, const style_plan &p, int n)
{
    float a = 0;
    for (int i = 0; i < n; i++) {
        auto c = colour(f, p, i);
        a += (c[0] + c[1] + c[2]) / 3.0;
    }
    return a / n;
}
static int size_of_luxels(float len, float scale) { return (int)(len / scale) + 1; }

// what flood filling and averaging leaves of an image, by the definition: a luxel is the mean of its unoccluded samples
static uint32_t get32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }

struct region
{
    size_t from, to;
};
static void check_data(const mbsp_t &bsp, int game, int f, const std::vector<int> &styles, int lightofs, int w, int h, int srcw, int srch, const std::vector<uint8_t> *lit,
    const std::vector<uint8_t> *lux, std::vector<region> &used, bool grey_written)
{
    int n = w * h;
    bool rgb = game != 0;
    size_t bytes = (size_t)n * styles.size() * (rgb ? 3 : 1);
    sx_assert(lightofs >= 0, "a lit face has an offset");
    sx_assert((size_t)lightofs + bytes <= bsp.dlightdata.size(), "a face's samples lie within the lighting lump");
    for (auto &r : used)
        sx_assert((size_t)lightofs >= r.to || (size_t)lightofs + bytes <= r.from, "samples of different faces overlap");
    used.push_back({(size_t)lightofs, (size_t)lightofs + bytes});
    if (lit)
        sx_assert(lit->size() == 3 * bsp.dlightdata.size(), "colours cover the lighting lump");
    if (lux)
        sx_assert(lux->size() == (rgb ? 1 : 3) * bsp.dlightdata.size(), "directions cover the lighting lump");
    if (!grey_written)
        return;
    for (size_t k = 0; k < styles.size(); k++) {
        const style_plan *p = nullptr;
        for (auto &q : plan[f].styles)
            if (q.style == styles[k])
                p = &q;
        if (!p && game == 2 && styles[k] == 0) { // stored black
            for (size_t i = 0; i < 3 * (size_t)n; i++)
                sx_assert(bsp.dlightdata[lightofs + i] == 0, "Quake II: an unlit face is stored black");
            continue;
        }
        sx_assert(p, "a style is stored that lights the face");
        for (int t = 0; t < h; t++)
            for (int s = 0; s < w; s++) {
                int src = (t * srch / h) * srcw + s * srcw / w;
                qvec3f c = colour(f, *p, src);
                size_t at = lightofs + (n * k + t * w + s) * (rgb ? 3 : 1);
                if (rgb)
                    for (int i = 0; i < 3; i++)
                        sx_assert(bsp.dlightdata[at + i] == (uint8_t)c[i], "lighting lump holds the face's colours");
                else {
                    uint8_t m = std::max({(uint8_t)c[0], (uint8_t)c[1], (uint8_t)c[2]});
                    sx_assert(bsp.dlightdata[at] == m, "lighting lump holds the face's brightest component");
                    if (lit)
                        for (int i = 0; i < 3; i++)
                            sx_assert((*lit)[at * 3 + i] == (uint8_t)c[i], "the .lit data hold the face's colours");
                    if (lux) {
                        sx_assert((*lux)[at * 3] == 128 && (*lux)[at * 3 + 1] == 128 && (*lux)[at * 3 + 2] == 255, "the .lux data hold the light's direction");
                    }
                }
            }
    }
}
// the styles must be the brightest ones, in order of falling brightness
static void check_styles(int game, int f, const std::vector<int> &styles, int limit, int max_style, int samples)
{
    std::vector<const style_plan *> all;
    for (auto &p : plan[f].styles) {
        if (p.style > max_style)
            continue;
        float mx = 0;
        for (int i = 0; i < samples; i++) {
            auto c = colour(f, p, i);
            mx = std::max(mx, (float)((c[0] + c[1] + c[2]) / 3.0));
        }
        if (game != 2 && mx < 1)
            continue;
        all.push_back(&p);
    }
    size_t want = std::min((size_t)limit, all.size());
    if (game == 2 && all.empty()) {
        sx_assert(styles.size() == 1 && styles[0] == 0, "Quake II: an unlit face is stored black");
        return;
    }
    sx_assert(styles.size() == want, "number of styles stored for a face");
    float last = 0;
    for (size_t k = 0; k < styles.size(); k++) {
        const style_plan *p = nullptr;
        for (auto *q : all)
            if (q->style == styles[k])
                p = q;
        sx_assert(p, "a style stored for the face is one that lights it");
        for (size_t j = 0; j < k; j++)
            sx_assert(styles[j] != styles[k], "a style is stored twice");
        float a = average(f, *p, samples);
        sx_assert(k == 0 || a <= last, "styles are in order of falling brightness");
        last = a;
    }
    for (auto *q : all) {
        bool in = false;
        for (int s : styles)
            in |= s == q->style;
        sx_assert(in || styles.empty() || average(f, *q, samples) <= last, "the styles left out are the darkest");
    }
}
static const float face_w[6] = {32, 16, 16, 16, 16, 16}, face_h[6] = {16, 16, 16, 16, 32, 16};

static std::vector<uint8_t> file_of(const char *name, const char *ident)
{
    memfs::file *f = memfs::find(name);
    sx_assert(f != nullptr, "the file is written");
    sx_assert(f->data.size() >= 8 && !memcmp(f->data.data(), "QLIT", 4), "file identifier");
    sx_assert(get32((const uint8_t *)f->data.data() + 4) == 1, "file version");
    return {f->data.begin() + 8, f->data.end()};
}
// params: game, mode, styles per face, faces with any styles, symbolic samples, .lit, .lux (bits: 1 file, 2 lump), rounds
// mode: 0 plain, 1 LMSHIFT, 2 more styles per face, 3 LMSHIFT without vanilla, 4 decoupled, 5 decoupled without vanilla,
//       6 second round only writes the .lit, 7 lit2
SX_ENTRY(lightmaps)
{
    sx_qassert_ends = 0;
    int game = (int)sx_param(0), mode = (int)sx_param(1), maxstyles = (int)sx_param(2), anyfaces = (int)sx_param(3), nsym = (int)sx_param(4);
    int litbits = (int)sx_param(5), luxbits = (int)sx_param(6), rounds = (int)sx_param(7);
    fixture w;
    make_world(w, game);
    mbsp_t &bsp = w.bsp;
    light_options.rangescale.set_value(1, settings::source::COMMANDLINE);
    if (litbits & 1)
        light_options.write_litfile |= lightfile::external;
    if (litbits & 2)
        light_options.write_litfile |= lightfile::bspx;
    if (luxbits & 1)
        light_options.write_luxfile |= lightfile::external;
    if (luxbits & 2)
        light_options.write_luxfile |= lightfile::bspx;
    bool sup = mode == 1 || mode == 2 || mode == 3 || mode == 7;
    bool decoupled = mode == 4 || mode == 5, novanilla = mode == 3 || mode == 5;
    int limit = mode == 2 ? 16 : 4;
    if (mode == 2)
        light_options.facestyles.set_value(16, settings::source::COMMANDLINE);
    if (novanilla)
        light_options.novanilla.set_value(true, settings::source::COMMANDLINE);
    if (decoupled)
        light_options.world_units_per_luxel.set_value(8, settings::source::COMMANDLINE);
    if (mode == 7)
        light_options.write_litfile = lightfile::lit2;
    bool scaled = mode == 1 || mode == 3;
    int shift[6] = {4, 4, 4, 4, 4, 4};
    if (scaled) {
        for (int i = 0; i < 2; i++)
            shift[i] = 4 - (int)sx_choice(i ? 3 : 2, "shift");
        std::vector<uint8_t> s(6);
        for (int i = 0; i < 6; i++)
            s[i] = (uint8_t)shift[i];
        w.data.bspx.transfer("LMSHIFT", s);
    }
    for (round_no = 0; round_no < rounds; round_no++) {
        bool litonly = mode == 6 && round_no == 1;
        light_options.litonly.set_value(litonly, settings::source::COMMANDLINE);
        if (litonly)
            light_options.write_litfile |= lightfile::external; // as postinitialize() does
        plan.clear();
        plan.resize(6);
        for (int f = 0; f < 6; f++) {
            if (!lit_face(f))
                continue;
            int n = 1;
            if (f < anyfaces)
                n = (int)sx_choice(maxstyles + 1, "styles");
            for (int k = 0; k < n; k++) {
                style_plan p{style_menu[0], level_menu[1 + f % 2], k};
                if (f < anyfaces) {
                    bool taken = true;
                    // any style not used yet, by rising menu index from a start
                    uint32_t at = maxstyles > 3 ? (round_no + k) : sx_choice(mode == 6 ? 3 : scaled ? 4 : 6, "style") ;
                    for (int tries = 0; taken && tries < 8; tries++, at++) {
                        p.style = style_menu[at % 8];
                        taken = false;
                        for (auto &q : plan[f].styles)
                            taken |= q.style == p.style;
                    }
                    p.level = level_menu[mode == 6 ? 1 + k : maxstyles > 3 && k > 1 ? k % 5 : scaled ? 2 * sx_choice(2, "level") : sx_choice(3, "level")];
                }
                plan[f].styles.push_back(p);
            }
        }
        for (int i = 0; i < nsym; i++) {
            uint8_t c[3] = {sx_any<uint8_t>("r"), sx_any<uint8_t>("g"), sx_any<uint8_t>("b")};
            plan[0].symbolic.push_back({(float)c[0], (float)c[1], (float)c[2]});
        }
        mbsp_t before = bsp;
        ResetPhong(); // as main does
        LightWorld(&w.data, "map.bsp", false);
        if (mode == 7)
            break;
        // the data to look at
        std::vector<uint8_t> litdata, luxdata;
        const std::vector<uint8_t> *lit = nullptr, *lux = nullptr;
        if (game == 0 && (light_options.write_litfile & lightfile::external)) {
            litdata = file_of("map.lit", "QLIT");
            lit = &litdata;
        }
        auto rgbl = w.data.bspx.entries.find("RGBLIGHTING");
        sx_assert((rgbl != w.data.bspx.entries.end()) == (game == 0 && (litbits & 2)), "RGBLIGHTING lump is there exactly if asked for");
        if (rgbl != w.data.bspx.entries.end()) {
            if (lit)
                sx_assert(litdata == rgbl->second, "the .lit file and RGBLIGHTING differ");
            lit = &rgbl->second;
        }
        if (game == 0 && (luxbits & 1)) {
            luxdata = file_of("map.lux", "QLIT");
            lux = &luxdata;
        }
        auto dirl = w.data.bspx.entries.find("LIGHTINGDIR");
        sx_assert((dirl != w.data.bspx.entries.end()) == (game == 0 && (luxbits & 2)), "LIGHTINGDIR lump is there exactly if asked for");
        if (dirl != w.data.bspx.entries.end()) {
            if (lux)
                sx_assert(luxdata == dirl->second, "the .lux file and LIGHTINGDIR differ");
            lux = &dirl->second;
        }
        auto lmoffset = w.data.bspx.entries.find("LMOFFSET"), lmstyle = w.data.bspx.entries.find("LMSTYLE"), lmstyle16 = w.data.bspx.entries.find("LMSTYLE16");
        auto end = w.data.bspx.entries.end();
        auto dec = w.data.bspx.entries.find("DECOUPLED_LM");
        sx_assert((dec != end) == decoupled, "DECOUPLED_LM lump is there exactly if asked for");
        if (!sup)
            sx_assert(lmoffset == end && lmstyle == end && lmstyle16 == end, "stale per-face lumps are removed");
        sx_assert(lmstyle == end || lmstyle16 == end, "two style lumps");
        std::vector<region> used;
        bool any = false;
        if (litonly) {
            sx_assert(bsp.dlightdata == before.dlightdata, "-litonly leaves the lighting lump");
            for (int f = 0; f < 6; f++) {
                sx_assert(bsp.dfaces[f].lightofs == before.dfaces[f].lightofs && bsp.dfaces[f].styles == before.dfaces[f].styles, "-litonly leaves the faces");
            }
            sx_assert(lit->size() == 3 * bsp.dlightdata.size(), "colours cover the lighting lump");
            for (int f = 0; f < 6; f++) {
                if (!lit_face(f) || bsp.dfaces[f].lightofs == -1)
                    continue;
                int lw = size_of_luxels(face_w[f], 16), lh = size_of_luxels(face_h[f], 16);
                for (int k = 0; k < 4 && bsp.dfaces[f].styles[k] != 255; k++) {
                    const style_plan *p = nullptr;
                    for (auto &q : plan[f].styles)
                        if (q.style == bsp.dfaces[f].styles[k])
                            p = &q;
                    for (int i = 0; i < lw * lh; i++) {
                        qvec3f c = p ? colour(f, *p, i) : qvec3f{0, 0, 0};
                        size_t at = bsp.dfaces[f].lightofs + lw * lh * k + i;
                        for (int j = 0; j < 3; j++)
                            sx_assert((*lit)[at * 3 + j] == (uint8_t)c[j], "-litonly writes a style's colours where the BSP has that style");
                    }
                }
            }
            sx_reach("litonly");
            continue;
        }
        for (int f = 0; f < 6; f++) {
            const mface_t &face = bsp.dfaces[f];
            std::vector<int> styles;
            bool ended = false;
            for (int k = 0; k < 4; k++) {
                if (face.styles[k] == 255)
                    ended = true;
                else if (!ended || !sup) {
                    sx_assert(!ended, "a style after the end of a face's styles");
                    styles.push_back(face.styles[k]);
                }
            }
            int vw = size_of_luxels(face_w[f], 16), vh = size_of_luxels(face_h[f], 16);
            if (!lit_face(f)) {
                sx_assert(face.lightofs == -1, "a face that cannot be lit has no lighting");
                continue;
            }
            float scale = decoupled ? 8 : (float)(1 << shift[f]);
            int sw = size_of_luxels(face_w[f], scale), sh = size_of_luxels(face_h[f], scale);
            std::vector<int> supstyles = styles;
            int supofs = face.lightofs;
            if (sup) {
                if (lmoffset != end) {
                    sx_assert(lmoffset->second.size() == 24, "LMOFFSET has one offset per face");
                    supofs = (int)get32(lmoffset->second.data() + 4 * f);
                }
                if (lmstyle != end || lmstyle16 != end) {
                    auto &l = lmstyle != end ? lmstyle->second : lmstyle16->second;
                    int width = lmstyle != end ? 1 : 2;
                    sx_assert(l.size() % (6 * width) == 0, "the style lump has the same number of styles for every face");
                    int per = (int)l.size() / (6 * width);
                    supstyles.clear();
                    for (int k = 0; k < per; k++) {
                        int s = width == 1 ? l[per * f + k] : l[2 * (per * f + k)] | l[2 * (per * f + k) + 1] << 8;
                        if (s == (width == 1 ? 255 : 65535))
                            break;
                        supstyles.push_back(s);
                    }
                }
            }
            if (decoupled) {
                const uint8_t *d = dec->second.data() + 40 * f;
                sx_assert(dec->second.size() == 240, "DECOUPLED_LM has one record per face");
                supofs = (int)get32(d + 4);
                if (!styles.empty()) {
                    int dw = d[0] | d[1] << 8, dh = d[2] | d[3] << 8; // its axes need not be those of the texture
                    sx_assert((dw == sw && dh == sh) || (dw == sh && dh == sw), "size of the decoupled lightmap");
                    sw = dw;
                    sh = dh;
                }
            }
            check_styles(game, f, supstyles, scale != 16 && mode != 4 && mode != 5 && !novanilla ? std::min(limit, 4) : limit, sup && (novanilla || scale == 16) ? 255 : 254, sw * sh);
            if (novanilla && scale != 16)
                sx_assert(face.lightofs == -1, "without vanilla lighting a face has none");
            if (supstyles.empty()) {
                sx_assert(supofs == -1 && face.lightofs == -1, "a dark face has no lighting");
                sx_assert(styles.empty(), "a dark face has no styles");
                continue;
            }
            any = true;
            check_data(bsp, game, f, supstyles, supofs, sw, sh, sw, sh, lit, lux, used, true);
            if (!novanilla || (sup && scale == 16)) {
                // the first styles, at the standard scale
                size_t plain = 0; // up to a style they cannot store
                while (plain < supstyles.size() && plain < 4 && supstyles[plain] < 255)
                    plain++;
                sx_assert(styles.size() == plain, "number of styles for engines without the extension");
                for (size_t k = 0; k < styles.size(); k++)
                    sx_assert(styles[k] == supstyles[k], "styles for engines without the extension");
                if (face.lightofs == supofs)
                    sx_assert(sw == vw && sh == vh, "standard lighting has the standard size");
                else
                    check_data(bsp, game, f, styles, face.lightofs, vw, vh, sw, sh, lit, lux, used, !decoupled);
            }
        }
        if (any)
            sx_reach(sup ? "extended" : decoupled ? "decoupled" : "plain");
    }
    if (mode == 7) {
        memfs::file *f = memfs::find("map.lit");
        sx_assert(f && f->data.size() >= 16, "the .lit2 file is written");
        const uint8_t *d = (const uint8_t *)f->data.data();
        sx_assert(!memcmp(d, "QLIT", 4) && get32(d + 4) == 2 && get32(d + 8) == 6, ".lit2 header");
        size_t n = get32(d + 12), rec = 4 + 8 + 4 + 1, base = 16 + 6 * rec;
        sx_assert(f->data.size() == base + 6 * n, "the .lit2 file holds all colours and directions");
        std::vector<region> used;
        for (int i = 0; i < 6; i++) {
            const uint8_t *r = d + 16 + rec * i;
            int ofs = (int)get32(r);
            if (!lit_face(i)) {
                sx_assert(ofs == -1, "a face that cannot be lit has no lighting");
                continue;
            }
            std::vector<int> styles;
            for (int k = 0; k < 4; k++)
                if (int s = r[4 + 2 * k] | r[5 + 2 * k] << 8; s != 65535)
                    styles.push_back(s);
            int lw = size_of_luxels(face_w[i], 16), lh = size_of_luxels(face_h[i], 16);
            check_styles(game, i, styles, 4, 255, lw * lh);
            if (styles.empty()) {
                sx_assert(ofs == -1, "a dark face has no lighting");
                continue;
            }
            sx_assert((r[12] | r[13] << 8) == lw && (r[14] | r[15] << 8) == lh && r[16] == 4, "size of a face's lightmap");
            sx_assert(ofs >= 0 && ofs + lw * lh * styles.size() <= n, "a face's samples lie within the .lit2 data");
            for (size_t k = 0; k < styles.size(); k++)
                for (auto &q : plan[i].styles)
                    if (q.style == styles[k])
                        for (int j = 0; j < lw * lh; j++) {
                            qvec3f c = colour(i, q, j);
                            for (int m = 0; m < 3; m++)
                                sx_assert(d[base + 3 * (ofs + lw * lh * k + j) + m] == (uint8_t)c[m], "the .lit2 data hold the face's colours");
                        }
        }
        sx_reach("lit2");
    }
}

static void make_surface(lightsurf_t &ls, settings::worldspawn_keys &cfg, int n)
{
    ls.cfg = &cfg;
    ls.samples.resize(n);
    ls.plane.normal = {0, 0, 1};
    ls.snormal = {1, 0, 0};
    ls.tnormal = {0, -1, 0};
    Lightmap_ForStyle(&ls.lightmapsByStyle, 0, &ls)->style = 0;
}
// params: maxlight, lightcolorscale percent, rangescale percent, the blue component
SX_ENTRY(clamped)
{
    int maxlight = (int)sx_param(0);
    float colorscale = sx_param(1) / 100.f, range = sx_param(2) / 100.f;
    static lightsurf_t ls{};
    make_surface(ls, light_options, 1);
    light_options.rangescale.set_value(range, settings::source::COMMANDLINE);
    ls.maxlight = (float)maxlight;
    ls.lightcolorscale = colorscale;
    auto component = [&](const char *n) {
        return (sx_any<int16_t>(n) >> 5) * 0.5f; // -512..511.5 in halves
    };
    qvec3f c{component("r"), 40.f, (float)sx_param(3)};
    auto &out = ls.lightmapsByStyle.begin()->samples[0].color;
    out = c;
    FinishLightmapSurface(nullptr, &ls);
    for (int i = 0; i < 3; i++)
        sx_assert(out[i] >= 0 && out[i] < 256, "a colour component fits a byte");
    if (!maxlight && colorscale == 1 && range == 1)
        for (int i = 0; i < 3; i++) {
            float in = c[i] > 0 ? c[i] : 0;
            if (c[0] <= 255 && c[1] <= 255 && c[2] <= 255)
                sx_assert(out[i] == in, "colours within range are kept");
        }
    if (maxlight)
        for (int i = 0; i < 3; i++)
            sx_assert(out[i] <= maxlight * 2 * range * 1.001f, "no brighter than the maximum light");
    sx_reach("clamped");
}
// params: width, height in luxels, extra, soft, how many samples may be occluded
SX_ENTRY(filtered)
{
    int w = (int)sx_param(0), h = (int)sx_param(1), extra = (int)sx_param(2), soft = (int)sx_param(3), bits = (int)sx_param(4);
    static lightsurf_t ls{};
    int fw = w * extra, fh = h * extra, n = fw * fh;
    make_surface(ls, light_options, n);
    light_options.extra.set_value(extra, settings::source::COMMANDLINE);
    light_options.soft.set_value(soft, settings::source::COMMANDLINE);
    std::vector<int> occ(n);
    auto &lm = *ls.lightmapsByStyle.begin();
    for (int i = 0; i < n; i++) {
        int v = (i * 37 + 11) % 250;
        lm.samples[i].color = {(float)v, (float)(v / 2), 7};
        lm.samples[i].direction = {0, 0, 1};
        // the occluded ones are spread over the image
        occ[i] = i * 5 % n < bits ? (int)sx_bool("occluded") : 0;
        ls.samples[i].occluded = occ[i];
    }
    static fixture fx;
    make_world(fx, 0);
    faceextents_t ext(fx.bsp.dfaces[0], fx.bsp, 16);
    sx_assert(ext.width() == w && ext.height() == h, "size of the face");
    std::vector<uint8_t> out(w * h + 1, 0xee), lit(3 * w * h + 1, 0xee), lux(3 * w * h + 1, 0xee);
    WriteSingleLightmap(&fx.bsp, &fx.bsp.dfaces[0], &ls, &lm, w, h, out.data(), lit.data(), lux.data(), ext);
    sx_assert(out.back() == 0xee && lit.back() == 0xee && lux.back() == 0xee, "written within the lightmap");
    float lo = 1e9f, hi = -1;
    bool all = true;
    for (int i = 0; i < n; i++)
        all &= occ[i];
    for (int i = 0; i < n; i++)
        if (!occ[i] || all) {
            lo = std::min(lo, lm.samples[i].color[0]);
            hi = std::max(hi, lm.samples[i].color[0]);
        }
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            int i = y * w + x;
            sx_assert(lit[3 * i] >= (int)lo && lit[3 * i] <= hi, "a luxel is no brighter and no darker than the samples that count");
            sx_assert(out[i] == std::max({lit[3 * i], lit[3 * i + 1], lit[3 * i + 2]}), "the grey lightmap is the brightest component");
            sx_assert(lit[3 * i + 2] >= 6 && lit[3 * i + 2] <= 7, "an even component stays even");
            sx_assert(lux[3 * i] == 128 && lux[3 * i + 1] == 128 && lux[3 * i + 2] == 255, "the direction of the light");
            if (soft)
                continue;
            float sum = 0;
            int used = 0;
            for (int b = 0; b < extra; b++)
                for (int a = 0; a < extra; a++) {
                    int j = (y * extra + b) * fw + x * extra + a;
                    if (!occ[j] || all) {
                        sum += lm.samples[j].color[0];
                        used++;
                    }
                }
            if (used == extra * extra) {
                int mean = (int)(sum / used);
                sx_assert(lit[3 * i] >= mean - 1 && lit[3 * i] <= mean + 1, "a luxel is the mean of its samples");
            }
        }
    sx_reach("filtered");
}
