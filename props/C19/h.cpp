// qbsp to light: what texture names and entity keys say about surfaces, through the .texinfo.json file.
#include <fstream>
#include "sx.h"
#include "memfs.h"
#include <qbsp/map.cc>
#include <qbsp/writebsp.cc>
#include <cstring>
#include <stdexcept>

std::vector<surfflags_t> load_flags(const mbsp_t &bsp);

static void setup(int game)
{
    static const bspversion_t *versions[] = {&bspver_q1, &bspver_q2};
    qbsp_options.target_version = versions[game];
    qbsp_options.target_game = versions[game]->game;
    qbsp_options.bsp_path = "map.bsp";
    map.entities.emplace_back(); // the world
}
static int texture(const char *name)
{
    map.miptex.emplace_back();
    map.miptex.back().name = name;
    return (int)map.miptex.size() - 1;
}
static void same(const surfflags_t &a, const surfflags_t &b)
{
    sx_assert(a.is_nodraw == b.is_nodraw, "is_nodraw");
    sx_assert(a.is_hint == b.is_hint, "is_hint");
    sx_assert(a.is_hintskip == b.is_hintskip, "is_hintskip");
    sx_assert(a.no_dirt == b.no_dirt, "no_dirt");
    sx_assert(a.no_shadow == b.no_shadow, "no_shadow");
    sx_assert(a.no_bounce == b.no_bounce, "no_bounce");
    sx_assert(a.no_minlight == b.no_minlight, "no_minlight");
    sx_assert(a.no_expand == b.no_expand, "no_expand");
    sx_assert(a.no_phong == b.no_phong, "no_phong");
    sx_assert(a.light_ignore == b.light_ignore, "light_ignore");
    sx_assert(a.surflight_rescale == b.surflight_rescale, "surflight_rescale");
    sx_assert(a.surflight_style == b.surflight_style, "surflight_style");
    sx_assert(a.surflight_targetname == b.surflight_targetname, "surflight_targetname");
    sx_assert(a.surflight_color == b.surflight_color, "surflight_color");
    sx_assert(a.surflight_minlight_scale == b.surflight_minlight_scale, "surflight_minlight_scale");
    sx_assert(a.phong_angle == b.phong_angle, "phong_angle");
    sx_assert(a.phong_angle_concave == b.phong_angle_concave, "phong_angle_concave");
    sx_assert(a.phong_group == b.phong_group, "phong_group");
    sx_assert(a.minlight == b.minlight, "minlight");
    sx_assert(a.minlight_color == b.minlight_color, "minlight_color");
    sx_assert(a.light_alpha == b.light_alpha, "light_alpha");
    sx_assert(a.light_twosided == b.light_twosided, "light_twosided");
    sx_assert(a.maxlight == b.maxlight, "maxlight");
    sx_assert(a.lightcolorscale == b.lightcolorscale, "lightcolorscale");
    sx_assert(a.surflight_group == b.surflight_group, "surflight_group");
    sx_assert(a.world_units_per_luxel == b.world_units_per_luxel, "world_units_per_luxel");
    sx_assert(a.object_channel_mask == b.object_channel_mask, "object_channel_mask");
}
static bool equal(const surfflags_t &a, const surfflags_t &b)
{
    return a.native == b.native && a.is_nodraw == b.is_nodraw && a.is_hint == b.is_hint && a.is_hintskip == b.is_hintskip && a.no_dirt == b.no_dirt && a.no_shadow == b.no_shadow && a.no_bounce == b.no_bounce && a.no_minlight == b.no_minlight && a.no_expand == b.no_expand && a.no_phong == b.no_phong && a.light_ignore == b.light_ignore && a.surflight_rescale == b.surflight_rescale && a.surflight_style == b.surflight_style && a.surflight_targetname == b.surflight_targetname && a.surflight_color == b.surflight_color && a.surflight_minlight_scale == b.surflight_minlight_scale && a.phong_angle == b.phong_angle && a.phong_angle_concave == b.phong_angle_concave && a.phong_group == b.phong_group && a.minlight == b.minlight && a.minlight_color == b.minlight_color && a.light_alpha == b.light_alpha && a.light_twosided == b.light_twosided && a.maxlight == b.maxlight && a.lightcolorscale == b.lightcolorscale && a.surflight_group == b.surflight_group && a.world_units_per_luxel == b.world_units_per_luxel && a.object_channel_mask == b.object_channel_mask;
}
static float number()
{
    static const float menu[] = {0, 1, -1, 0.1f, 16777217, 3.4e38f, 1e-30f};
    return menu[sx_choice(7, "number")];
}
static int integer()
{
    static const int menu[] = {0, 1, -1, 2147483647, (int)-2147483648ll};
    return menu[sx_choice(5, "integer")];
}
static qvec3b colour()
{
    static const qvec3b menu[] = {{0, 0, 0}, {0, 0, 255}, {1, 128, 7}};
    return menu[sx_choice(3, "colour")];
}
template<class F> static void maybe(F f)
{
    if (sx_bool("set"))
        f();
}
static std::string name()
{
    static const char *menu[] = {"", "lamp 1", "a\\b\"c/\t", "\xcc\xe1\x6d\xf0"};
    return menu[sx_choice(4, "name")];
}
// any value of a group of flags
static surfflags_t any_flags(int group)
{
    surfflags_t f{};
    switch (group) {
    case 0:
        f.is_nodraw = sx_bool("f");
        f.is_hint = sx_bool("f");
        f.is_hintskip = sx_bool("f");
        f.no_dirt = sx_bool("f");
        f.no_shadow = sx_bool("f");
        break;
    case 1:
        f.no_bounce = sx_bool("f");
        f.no_minlight = sx_bool("f");
        f.no_expand = sx_bool("f");
        f.no_phong = sx_bool("f");
        f.light_ignore = sx_bool("f");
        break;
    case 2:
        maybe([&] { f.surflight_rescale = (bool)sx_bool("f"); });
        maybe([&] { f.light_twosided = (bool)sx_bool("f"); });
        maybe([&] { f.surflight_style = integer(); });
        break;
    case 3:
        maybe([&] { f.surflight_targetname = name(); });
        maybe([&] { f.surflight_color = colour(); });
        f.minlight_color = colour();
        break;
    case 4:
        maybe([&] { f.surflight_minlight_scale = number(); });
        f.phong_angle = number();
        break;
    case 5:
        f.phong_angle_concave = number();
        f.phong_group = integer();
        break;
    case 6:
        maybe([&] { f.minlight = number(); });
        f.maxlight = number();
        break;
    case 7:
        maybe([&] { f.light_alpha = number(); });
        f.lightcolorscale = number();
        break;
    case 8:
        f.surflight_group = integer();
        maybe([&] { f.world_units_per_luxel = number(); });
        break;
    case 9:
        maybe([&] { f.object_channel_mask = integer(); });
        f.native = sx_bool("f") ? 0 : TEX_SPECIAL;
        break;
    }
    return f;
}
// params: group of flags of the first texture, of the second, how many textures are exported, 1: in any order
SX_ENTRY(flags)
{
    setup(0);
    int n = (int)sx_param(2);
    qbsp_options.includeskip.set_value(true, settings::source::COMMANDLINE);
    texture("wall");
    surfflags_t want[3];
    int id[3], order[3] = {0, 1, 2};
    for (int i = 0; i < 3; i++) {
        maptexinfo_t t{};
        t.flags = want[i] = i == 2 ? surfflags_t{} : any_flags((int)sx_param(i));
        id[i] = FindTexinfo(t, qplane3d{});
        for (int j = 0; j < i; j++)
            sx_assert((id[i] == id[j]) == equal(want[i], want[j]), "textures are shared exactly if they are alike");
    }
    // exported in any order, not all of them need be
    if (sx_param(3))
        for (int i = 0; i < 2; i++)
            std::swap(order[i], order[i + sx_choice(3 - i, "order")]);
    int out[3];
    for (int i = 0; i < n; i++)
        out[i] = (int)ExportMapTexinfo(id[order[i]]);
    const std::string old = "{\"0\":{\"is_nodraw\":true}}"; // of an earlier run
    memfs::put("map.texinfo.json", old.data(), old.size());
    bool none = sx_param(3) && sx_bool("-noextendedsurfflags");
    if (none)
        qbsp_options.noextendedsurfflags.set_value(true, settings::source::COMMANDLINE);
    WriteExtendedTexinfoFlags();
    auto got = load_flags(map.bsp);
    sx_assert(got.size() == map.bsp.texinfo.size(), "one set of flags for each texture");
    for (int i = 0; i < n; i++) {
        sx_assert(out[i] >= 0 && out[i] < got.size(), "number of the exported texture");
        sx_assert(map.bsp.texinfo[out[i]].flags.native == want[order[i]].native, "native flags are in the BSP");
        same(got[out[i]], none ? surfflags_t{} : want[order[i]]);
    }
    sx_reach("flags");
}

static const char *set_key(mapentity_t &e, const char *key, std::initializer_list<const char *> values)
{
    uint32_t i = sx_choice((uint32_t)values.size() + 1, key);
    if (i == values.size())
        return nullptr;
    const char *v = values.begin()[i];
    e.epairs.set(key, v);
    return v;
}
static double num(const char *v) { return v ? atof(v) : 0; }
static bool eq(const char *a, const char *b) { return a && !strcmp(a, b); }
// params: group of keys, game
SX_ENTRY(keys)
{
    int group = (int)sx_param(0), game = (int)sx_param(1);
    setup(game);
    static mapentity_t ent;
    mapentity_t &world = map.entities[0];
    surfflags_t want{};
    const char *tex = "wall";
    contentflags_t contents = qbsp_options.target_game->create_empty_contents();
    maptexinfo_t t{};
    switch (group) {
    case 0: {
        if (eq(set_key(ent, "_dirt", {"-1", "1"}), "-1"))
            want.no_dirt = true;
        if (eq(set_key(ent, "_bounce", {"-1", "1"}), "-1"))
            want.no_bounce = true;
        if (eq(set_key(ent, "_lightignore", {"0", "1"}), "1"))
            want.light_ignore = true;
        if (auto v = set_key(ent, "_minlight", {"-1", "0", "37.5"})) {
            want.no_minlight = eq(v, "-1");
            want.minlight = (float)std::max(0., num(v));
        }
        break;
    }
    case 1: {
        auto shadow = set_key(ent, "_shadow", {"-1", "0", "1"});
        auto cls = set_key(ent, "classname", {"func_detail_illusionary", "func_detail"});
        bool liquid = sx_bool("liquid");
        if (liquid)
            contents = contentflags_t::make(EWT_VISCONTENTS_WATER);
        bool translucent = game && sx_bool("translucent");
        if (translucent)
            t.flags.native = want.native = Q2_SURF_TRANS33;
        want.no_shadow = eq(shadow, "-1") || (!eq(shadow, "1") && (eq(cls, "func_detail_illusionary") || (liquid && !translucent)));
        break;
    }
    case 2: {
        auto phong = set_key(ent, "_phong", {"0", "1"});
        auto angle = set_key(ent, "_phong_angle", {"0", "30.5", "400", "-5"});
        auto wphong = set_key(world, "_phong", {"0", "1"});
        auto wangle = set_key(world, "_phong_angle", {"45"});
        double p = num(phong ? phong : wphong), a = num(angle ? angle : wangle);
        want.phong_angle = a != 0 ? (float)std::min(360., std::max(0., a)) : p != 0 ? 89.f : 0.f;
        break;
    }
    case 3: {
        want.phong_angle_concave = (float)std::min(360., std::max(0., num(set_key(ent, "_phong_angle_concave", {"1", "361", "-1"}))));
        want.phong_group = (int)num(set_key(ent, "_phong_group", {"7", "-3"}));
        if (auto v = set_key(ent, "_surflight_rescale", {"0", "1"}))
            want.surflight_rescale = eq(v, "1");
        if (auto v = set_key(ent, "_surflight_style", {"0", "12"}); v && num(v))
            want.surflight_style = (int)num(v);
        break;
    }
    case 4: {
        if (auto v = set_key(ent, "_surflight_targetname", {"lamp", "\xcc\xe1"}))
            want.surflight_targetname = v;
        auto v = set_key(ent, "_surflight_color", {"255 128 0", "1 0.5 0", "1 2", "0 0 0"});
        if (eq(v, "0 0 0"))
            want.surflight_color = qvec3b{0, 0, 0};
        else if (v && !eq(v, "1 2"))
            want.surflight_color = qvec3b{255, (uint8_t)(eq(v, "1 0.5 0") ? 127 : 128), 0};
        auto scale = set_key(ent, "_surflight_minlight_scale", {"0", "0.25"}), wscale = set_key(world, "_surflight_minlight_scale", {"3"});
        if (scale || wscale)
            want.surflight_minlight_scale = (float)num(scale ? scale : wscale);
        break;
    }
    case 5: {
        if (auto v = set_key(ent, "_light_alpha", {"0", "0.3", "2", "-1"}))
            want.light_alpha = (float)std::min(1., std::max(0., num(v)));
        if (auto v = set_key(ent, "_light_twosided", {"0", "1"}))
            want.light_twosided = eq(v, "1");
        want.maxlight = (float)std::min(510., std::max(0., num(set_key(ent, "_maxlight", {"20", "600", "-4"}))));
        if (auto v = set_key(ent, "_lightcolorscale", {"0", "0.5", "1", "7"}))
            want.lightcolorscale = (float)std::min(1., num(v));
        break;
    }
    case 6: {
        auto c = set_key(ent, "_mincolor", {"255 0 10", "1 0 0.5", "0 0 0", "300 -1 0"}), d = set_key(ent, "_minlight_color", {"0 20 0"});
        if (eq(c, "255 0 10"))
            want.minlight_color = {255, 0, 10};
        else if (eq(c, "1 0 0.5"))
            want.minlight_color = {255, 0, 127};
        else if (eq(c, "300 -1 0"))
            want.minlight_color = {255, 0, 0};
        else if (d)
            want.minlight_color = {0, 20, 0};
        static const char *names[] = {"WALL", "wall", "wal"};
        tex = names[sx_choice(3, "texture")];
        auto e0 = set_key(ent, "_minlight_exclude", {"wall"}), e2 = set_key(ent, "_minlight_exclude2", {"Wall", "floor"}), e9 = set_key(ent, "_minlight_exclude9", {"wAll"});
        bool wall = !eq(tex, "wal");
        want.no_minlight = wall && (e0 || eq(e2, "Wall") || e9);
        break;
    }
    case 7: {
        want.surflight_group = (int)num(set_key(ent, "_surflight_group", {"0", "4", "-4"}));
        if (auto v = set_key(ent, "_world_units_per_luxel", {"0", "8", "0.5"}))
            want.world_units_per_luxel = (float)num(v);
        if (auto v = set_key(ent, "_object_channel_mask", {"0", "6"}))
            want.object_channel_mask = (int)num(v);
        break;
    }
    case 8: {
        static const char *names[] = {"skip", "*WaterSkip", "hint", "hintskip", "bevel", "null", "*water", "sky1", "skyline", "xsky", "skipper", "__tb_empty", "wall"};
        int i = (int)sx_choice(13, "texture");
        tex = names[i];
        bool noskip = sx_bool("-noskip"), splitsky = sx_bool("-splitsky"), turb = sx_bool("-splitturb");
        qbsp_options.noskip.set_value(noskip, settings::source::COMMANDLINE);
        qbsp_options.splitsky.set_value(splitsky, settings::source::COMMANDLINE);
        qbsp_options.splitturb.set_value(turb, settings::source::COMMANDLINE);
        auto lit = set_key(ent, "_litwater", {"0", "1"}), split = set_key(ent, "_splitturb", {"0", "1"});
        bool allow = lit ? eq(lit, "1") : split ? eq(split, "1") : turb;
        want.is_nodraw = !noskip && (i == 0 || i == 1 || i == 4 || i == 5 || i == 11);
        want.is_hint = i == 2 || i == 3;
        want.no_expand = i == 4;
        if (!game && ((tex[0] == '*' && !allow) || (!splitsky && (i == 7 || i == 8))))
            want.native = TEX_SPECIAL;
        if (game) {
            if (sx_bool("nodraw")) {
                t.flags.native |= Q2_SURF_NODRAW;
                want.is_nodraw = true;
            }
            if (sx_bool("hint flag")) {
                t.flags.native |= Q2_SURF_HINT;
                want.is_hint = true;
            }
            want.native = t.flags.native;
        }
        break;
    }
    }
    t.miptex = texture(tex);
    t.flags = SurfFlagsForEntity(t, ent, contents);
    FindTexinfo(t, qplane3d{});
    qbsp_options.includeskip.set_value(true, settings::source::COMMANDLINE);
    sx_assert(ExportMapTexinfo(0) == 0, "the texture is exported");
    WriteExtendedTexinfoFlags();
    auto got = load_flags(map.bsp);
    sx_assert(map.bsp.texinfo[0].flags.native == want.native, "native flags are in the BSP");
    same(got[0], want);
    sx_reach("keys");
}
// a file of another map, or not one of ours
// params: number of textures in the BSP
SX_ENTRY(foreign)
{
    static const char *files[] = {R"({"0":{"no_dirt":true,"surflight_targetname":"a long enough name to be allocated"},"7":{}})", R"({"7":{"no_dirt":true}})", R"({"0":{"unknown":[1]}})", "{}", R"({"0":{"no_dirt":3}})", "{\"0\":{\"no_d", "", "[]", R"({"x":{}})", R"({"0":5})"};
    setup(0);
    uint32_t which = sx_choice(10, "file");
    std::string text = files[which];
    memfs::put("map.texinfo.json", text.data(), text.size());
    map.bsp.texinfo.resize(sx_param(0));
    bool failed = false;
    try {
        auto got = load_flags(map.bsp);
        sx_assert(got.size() == sx_param(0), "one set of flags for each texture");
        for (auto &f : got)
            same(f, surfflags_t{});
    } catch (const std::exception &) {
        failed = true; // light ends with the message
    }
    sx_assert(failed ? which >= 4 : true, "a file that can be read is no error");
    sx_reach("foreign");
}
