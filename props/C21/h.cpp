// Settings: which source wins, what a value may be, and how a command line is read.
#include "sx.h"
#include <common/parser.hh>
#include <common/settings.hh>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
using namespace settings;

enum class colour { RED = 2, GREEN = 5, BLUE = 9 };
struct all_settings : setting_container
{
    setting_bool flag{this, {"flag", "f"}, false};
    setting_invertible_bool inv{this, "inv", true};
    setting_int32 num{this, "num", 5, -10, 100};
    setting_int32 wide{this, "wide", 7};
    setting_scalar real{this, "real", 0.5f, 0.0f, 2.0f};
    setting_int32 omit{this, "omit", 0, 0, 100, can_omit_argument_tag(), 1};
    setting_enum<colour> col{this, "col", colour::GREEN, {{"red", colour::RED}, {"green", colour::GREEN}, {"blue", colour::BLUE}}};
    setting_string str{this, "str", "def"};
    setting_path path{this, "path", "dir"};
    setting_set set{this, "set"};
    setting_vec3 vec{this, "vec", 1, 2, 3};
    setting_bool a{this, "qa", false}, b{this, "qb", false}, c{this, "qc", false};
    setting_redirect both{this, "both", {&a, &b, &c}};
};
static source any_source(const char *n)
{
    return (source)sx_range<int>(0, 3, n);
}
template<class S, class V> static void order(S &s, V first, int steps)
{
    // the model: the last of the highest sources
    V want = first;
    int top = 0;
    for (int i = 0; i < steps; i++) {
        if (sx_bool("reset")) {
            s.reset();
            want = first;
            top = 0;
            continue;
        }
        int src = (int)any_source("source");
        V v;
        if constexpr (std::is_same_v<V, bool>)
            v = sx_bool("value");
        else
            v = (V)sx_any<int8_t>("value");
        s.set_value(v, (source)src);
        if (src >= top) top = src, want = v;
    }
    if constexpr (std::is_arithmetic_v<V>)
        if (std::is_same_v<S, setting_int32> || std::is_same_v<S, setting_scalar>) {
            // never out of range
        }
    sx_assert(s.value() == want, "not the value the highest source set last");
    sx_assert((int)s.get_source() == top, "not the source of the value");
    sx_assert(s.is_changed() == (top != 0), "is_changed");
}
// params: setting, steps
SX_ENTRY(sources)
{
    all_settings s;
    int n = (int)sx_param(1);
    switch (sx_param(0)) {
    case 0: order(s.flag, false, n); break;
    case 1: order(s.inv, true, n); break;
    case 2: order(s.wide, 7, n); break;
    case 3: order(s.col, colour::GREEN, n); break;
    case 4: {
        // what is out of range is brought to the nearest that is not
        int v = sx_any<int>("value");
        s.num.set_value(v, source::MAP);
        sx_assert(s.num.value() == (v < -10 ? -10 : v > 100 ? 100 : v), "not clamped to the range");
        break;
    }
    case 5: {
        // a copy has every value and source, and the original keeps them
        all_settings t;
        int v = sx_range<int>(-10, 100, "value");
        auto src = any_source("source"), src2 = any_source("source");
        s.num.set_value(v, src);
        s.str.set_value("other", src2);
        s.set.add_value("x", src);
        s.inv.set_value(false, src2);
        t.str.set_value("before", source::COMMANDLINE);
        t.copy_from(s);
        sx_assert(t.num.value() == s.num.value() && t.num.get_source() == s.num.get_source() && t.num.value() == v, "number not copied");
        sx_assert(t.str.value() == s.str.value() && t.str.get_source() == s.str.get_source(), "string not copied");
        sx_assert(t.set.values() == s.set.values() && t.set.get_source() == s.set.get_source(), "set not copied");
        sx_assert(t.inv.value() == s.inv.value() && t.inv.get_source() == src2 && s.inv.get_source() == src2, "flag not copied");
        t.reset();
        sx_assert(t.num.value() == 5 && t.str.value() == "def" && t.set.values().empty() && t.inv.value() && t.vec.value() == qvec3f(1, 2, 3) && t.col.value() == colour::GREEN, "reset does not restore the default");
        for (auto *x : t) sx_assert(!x->is_changed(), "reset does not restore the source");
        sx_assert(s.num.value() == v, "the original changed");
        break;
    }
    }
    sx_reach("sources");
}
static const char *numbers[] = {"0", "1", "100", "101", "-1", "-10", "-11", "7.5", "+3", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967297", "4294967306", "-4294967295", "9999999999999999999", "", "x", "-", "nan", "-nan", "inf", "-inf", "1e3", "1x", "x1", " 1", ".5", "1e-3", "1e999", "NaN(1)", "infinite"};
// the number a text is, or none
static bool is_whole(const std::string &t, __int128 &v)
{
    size_t i = 0;
    bool neg = false;
    if (i < t.size() && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
    if (i == t.size()) return false;
    v = 0;
    for (; i < t.size(); i++) {
        if (t[i] < '0' || t[i] > '9') return false;
        v = v * 10 + (t[i] - '0');
    }
    if (neg) v = -v;
    return true;
}
static std::string text(int mode)
{
    if (mode == 0) return numbers[sx_choice(sizeof numbers / sizeof *numbers, "text")];
    // any text of these characters
    std::string t;
    static const char alpha[] = "0123456789+-.enaf";
    int n = (int)sx_choice(mode + 1, "length");
    for (int i = 0; i < n; i++) t += alpha[sx_choice(sizeof alpha - 1, "character")];
    return t;
}
// params: kind, text mode, quoted in a map (1) or on the command line (0)
SX_ENTRY(values)
{
    all_settings s;
    std::string t = text((int)sx_param(1));
    bool in_map = sx_param(2);
    auto src = in_map ? source::MAP : source::COMMANDLINE;
    auto parse = [&](setting_base &b) {
        if (in_map) {
            bool space = t.find(' ') != std::string::npos;
            return s.set_setting(sx_bool("underscore") ? "_" + b.primary_name() : b.primary_name(), space ? "\"" + t + "\"" : t, src) == setting_error::NONE;
        }
        std::string opt = (sx_bool("two") ? "--" : "-") + b.primary_name();
        const char *argv[] = {opt.c_str(), t.c_str(), "rest"};
        token_parser_t p(3, argv, {"test"});
        try {
            auto rest = s.parse(p);
            return rest.size() == 1; // else the text was not taken as the value
        } catch (parse_exception &) {
            return false;
        }
    };
    __int128 whole;
    bool is = is_whole(t, whole);
    switch (sx_param(0)) {
    case 0: {
        bool ok = parse(s.num);
        sx_assert(s.num.value() >= -10 && s.num.value() <= 100, "out of range");
        if (is && whole > -1000000000000ll && whole < 1000000000000ll) {
            sx_assert(ok, "a whole number is refused");
            sx_assert(s.num.value() == (whole < -10 ? -10 : whole > 100 ? 100 : (int)whole), "a number in range is read, one out of range clamped");
        }
        if (!ok) sx_assert(s.num.value() == 5 && !s.num.is_changed(), "a refused value changed the setting");
        sx_reach("number");
        break;
    }
    case 1: {
        bool ok = parse(s.wide);
        if (is && whole >= INT32_MIN && whole <= INT32_MAX) sx_assert(ok && s.wide.value() == (int)whole, "a number in range is not read");
        if (is && ok) sx_assert(s.wide.value() == (whole < INT32_MIN ? INT32_MIN : whole > INT32_MAX ? INT32_MAX : (int)whole), "a number out of range is read as another");
        if (!ok) sx_assert(s.wide.value() == 7 && !s.wide.is_changed(), "a refused value changed the setting");
        sx_reach("number");
        break;
    }
    case 2: {
        bool ok = parse(s.real);
        bool nan = s.real.value() != s.real.value();
        sx_assert(nan || (s.real.value() >= 0 && s.real.value() <= 2), "a real number out of range");
        sx_assert(!nan || t.find('n') != std::string::npos || t.find('N') != std::string::npos, "a number is read as none");
        if (is) sx_assert(ok && s.real.value() == (whole < 0 ? 0 : whole > 2 ? 2 : (float)whole), "a whole number is not read as a real");
        if (!ok) sx_assert(s.real.value() == 0.5f && !s.real.is_changed(), "a refused value changed the setting");
        sx_reach("number");
        break;
    }
    case 3: {
        bool ok = parse(s.col);
        auto v = s.col.value();
        sx_assert(v == colour::RED || v == colour::GREEN || v == colour::BLUE, "a value the enumeration does not have");
        s.col.string_value();
        if (is && (whole == 2 || whole == 5 || whole == 9)) sx_assert(ok && (int)v == (int)whole, "a value by number is refused");
        if (!ok) sx_assert(v == colour::GREEN && !s.col.is_changed(), "a refused value changed the setting");
        sx_reach("number");
        break;
    }
    case 4: {
        t = std::string("0 1 2").substr(0, 0) + t;
        bool ok = parse(s.flag);
        bool want = !(t == "0" || t == "-1");
        sx_assert(s.flag.value() == want && s.flag.is_changed(), "a flag that is given is not set");
        (void)ok;
        sx_reach("number");
        break;
    }
    case 5: {
        // the argument can be left out
        parse(s.omit);
        if (is && whole >= 0 && whole <= 100) sx_assert(s.omit.value() == (int)whole, "a number in range is not read");
        if (!t.empty() && (t[0] == 'x' || t[0] == 'n' || t[0] == 'e' || t[0] == 'a')) sx_assert(s.omit.value() == 1, "not the value for no argument");
        sx_assert(s.omit.value() >= 0 && s.omit.value() <= 100, "out of range");
        sx_reach("number");
        break;
    }
    }
}
// names of values, in any case
SX_ENTRY(names)
{
    all_settings s;
    static const char *labels[] = {"red", "green", "blue"};
    int l = (int)sx_concretize(sx_choice(3, "label"));
    std::string t = labels[l];
    for (auto &c : t)
        if (sx_bool("upper")) c -= 32;
    sx_assert(s.set_setting("col", t, source::MAP) == setting_error::NONE, "a name of a value is refused");
    static const colour values[] = {colour::RED, colour::GREEN, colour::BLUE};
    sx_assert(s.col.value() == values[l], "a name is read as another value");
    sx_assert(s.col.string_value() == labels[l], "a value has another name");
    sx_assert(s.set_setting("nosuch", t, source::MAP) == setting_error::MISSING, "a key that is no setting");
    sx_reach("names");
}
// any command line of a few words
// params: words
SX_ENTRY(line)
{
    all_settings s;
    static const char *words[] = {"-flag", "--f", "-noinv", "-inv", "-num", "-col", "-str", "-both", "-vec", "-omit", "-", "--", "", "0", "1", "12", "red", "map.bsp", "-1", "-nosuch"};
    int n = (int)sx_param(0);
    std::vector<const char *> argv;
    for (int i = 0; i < n; i++) argv.push_back(words[sx_choice(sizeof words / sizeof *words, "word")]);
    // the model
    bool flag = false, inv = true, both = false, fails = false;
    int num = 5, omit = 0;
    colour col = colour::GREEN;
    std::string str = "def";
    qvec3f vec{1, 2, 3};
    std::vector<std::string> rest;
    size_t i = 0;
    auto is_number = [](const char *w) { return !strcmp(w, "0") || !strcmp(w, "1") || !strcmp(w, "12") || !strcmp(w, "-1"); };
    auto truth = [&](bool on) {
        if (i < argv.size() && (!strcmp(argv[i], "1") || !strcmp(argv[i], "0") || !strcmp(argv[i], "-1"))) return !strcmp(argv[i++], "1") ? on : !on;
        return on;
    };
    for (; i < argv.size() && argv[i][0] == '-' && !fails;) {
        std::string w = argv[i++];
        while (!w.empty() && w[0] == '-') w.erase(0, 1);
        auto next = [&]() { return i < argv.size() ? argv[i] : nullptr; };
        auto clamp = [](int v, int lo) { return v < lo ? lo : v; };
        if (w == "flag" || w == "f")
            flag = truth(true);
        else if (w == "noinv")
            inv = truth(false);
        else if (w == "inv")
            inv = truth(true);
        else if (w == "both")
            both = truth(true);
        else if (w == "num") {
            if (!next() || !is_number(next())) fails = true;
            else num = atoi(argv[i++]);
        } else if (w == "omit") {
            if (next() && is_number(next())) omit = clamp(atoi(argv[i++]), 0);
            else omit = 1;
        } else if (w == "col") {
            if (!next() || strcmp(next(), "red")) fails = true;
            else col = colour::RED, i++;
        } else if (w == "str") {
            if (!next()) fails = true;
            else str = argv[i++];
        } else if (w == "vec") {
            for (int k = 0; k < 3 && !fails; k++) {
                if (!next() || !is_number(next())) fails = true;
                else vec[k] = (float)atoi(argv[i++]);
            }
        } else
            fails = true;
    }
    for (; i < argv.size(); i++) rest.push_back(argv[i]);
    token_parser_t p((int)argv.size(), argv.data(), {"command line"});
    bool failed = false;
    std::vector<std::string> got;
    try {
        got = s.parse(p);
    } catch (parse_exception &) {
        failed = true;
    }
    sx_assert(failed == fails, "a command line is refused exactly if an option is unknown or has no fitting value");
    if (failed) {
        sx_reach("refused");
        return;
    }
    sx_assert(got == rest, "what follows the options is returned as it is");
    sx_assert(s.flag.value() == flag && s.inv.value() == inv && s.a.value() == both && s.b.value() == both && s.c.value() == both, "flags");
    sx_assert(s.num.value() == num && s.omit.value() == omit, "numbers");
    sx_assert(s.col.value() == col && s.str.value() == str && s.vec.value() == vec, "other values");
    sx_reach("line");
}
