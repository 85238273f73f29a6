// The locale facets behind formatted stream I/O ("C" locale, decimal), and the part of libfmt that
// ericw-tools calls out of line, for symbolic execution.
#include <ios>
#include <istream>
#include <ostream>
#include <locale>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <fmt/core.h>
#include "sx.h"
#define USED __attribute__((used))
namespace std
{
locale::facet::~facet() {}
struct sx_num_get : num_get<char>
{
    sx_num_get() : num_get<char>(1) {}
    static bool getnum(iter_type &b, iter_type e, bool &neg, unsigned long &v, bool &over)
    {
        neg = false;
        v = 0;
        over = false;
        if (b != e && (*b == '-' || *b == '+')) {
            neg = *b == '-';
            ++b;
        }
        bool any = false;
        while (b != e) {
            unsigned d = (unsigned char)*b - '0';
            if (d > 9) break;
            any = true;
            if (v > (~0ul - d) / 10) over = true;
            v = v * 10 + d;
            ++b;
        }
        return any;
    }
    iter_type do_get(iter_type b, iter_type e, ios_base &, ios_base::iostate &err, long &v) const override
    {
        bool neg, over;
        unsigned long u;
        err = ios_base::goodbit;
        bool any = getnum(b, e, neg, u, over);
        const unsigned long lim = neg ? 0x8000000000000000ul : 0x7ffffffffffffffful;
        if (!any) {
            v = 0;
            err = ios_base::failbit;
        } else if (over || u > lim) {
            v = neg ? (long)0x8000000000000000ul : 0x7fffffffffffffffl;
            err = ios_base::failbit;
        } else
            v = neg ? (long)(0 - u) : (long)u;
        if (b == e) err |= ios_base::eofbit;
        return b;
    }
    template<class U> iter_type getu(iter_type b, iter_type e, ios_base::iostate &err, U &v) const
    {
        bool neg, over;
        unsigned long u;
        err = ios_base::goodbit;
        bool any = getnum(b, e, neg, u, over);
        if (!any) {
            v = 0;
            err = ios_base::failbit;
        } else if (over || u > (unsigned long)numeric_limits<U>::max()) {
            v = numeric_limits<U>::max();
            err = ios_base::failbit;
        } else
            v = neg ? (U)(0 - u) : (U)u;
        if (b == e) err |= ios_base::eofbit;
        return b;
    }
    iter_type do_get(iter_type b, iter_type e, ios_base &, ios_base::iostate &err, unsigned short &v) const override { return getu(b, e, err, v); }
    iter_type do_get(iter_type b, iter_type e, ios_base &, ios_base::iostate &err, unsigned int &v) const override { return getu(b, e, err, v); }
    iter_type do_get(iter_type b, iter_type e, ios_base &, ios_base::iostate &err, unsigned long &v) const override { return getu(b, e, err, v); }
    iter_type do_get(iter_type b, iter_type e, ios_base &, ios_base::iostate &err, unsigned long long &v) const override { return getu(b, e, err, v); }
    template<class F> iter_type getf(iter_type b, iter_type e, ios_base::iostate &err, F &v) const
    {
        char buf[64];
        int n = 0;
        bool dot = false, ex = false, digit = false;
        err = ios_base::goodbit;
        while (b != e && n < 63) {
            char c = *b;
            bool ok = false;
            if (c == '-' || c == '+') ok = n == 0 || buf[n - 1] == 'e' || buf[n - 1] == 'E';
            else if (c >= '0' && c <= '9') ok = digit = true;
            else if (c == '.') { ok = !dot && !ex; dot = true; }
            else if (c == 'e' || c == 'E') { ok = digit && !ex; ex = true; }
            if (!ok) break;
            buf[n++] = c;
            ++b;
        }
        buf[n] = 0;
        char *end;
        double d = n ? strtod(buf, &end) : 0;
        if (!digit || *end) {
            v = 0;
            err = ios_base::failbit;
        } else
            v = (F)d;
        if (b == e) err |= ios_base::eofbit;
        return b;
    }
    iter_type do_get(iter_type b, iter_type e, ios_base &, ios_base::iostate &err, float &v) const override { return getf(b, e, err, v); }
    iter_type do_get(iter_type b, iter_type e, ios_base &, ios_base::iostate &err, double &v) const override { return getf(b, e, err, v); }
};
static int decimal(char *out, unsigned long u, bool neg)
{
    char tmp[24];
    int n = 0;
    do {
        tmp[n++] = (char)('0' + (unsigned)(u % 10));
        u /= 10;
    } while (u);
    int k = 0;
    if (neg) out[k++] = '-';
    while (n) out[k++] = tmp[--n];
    return k;
}
struct sx_num_put : num_put<char>
{
    sx_num_put() : num_put<char>(1) {}
    static iter_type emit(iter_type o, ios_base &s, const char *p, int n, char fill)
    {
        for (long w = s.width(); w > n; w--) { *o = fill; ++o; }
        for (int i = 0; i < n; i++) { *o = p[i]; ++o; }
        s.width(0);
        return o;
    }
    iter_type do_put(iter_type o, ios_base &s, char fill, bool v) const override { char b[2] = {(char)('0' + v), 0}; return emit(o, s, b, 1, fill); }
    iter_type do_put(iter_type o, ios_base &s, char fill, long v) const override { char b[24]; return emit(o, s, b, decimal(b, v < 0 ? 0ul - (unsigned long)v : v, v < 0), fill); }
    iter_type do_put(iter_type o, ios_base &s, char fill, unsigned long v) const override { char b[24]; return emit(o, s, b, decimal(b, v, false), fill); }
    iter_type do_put(iter_type o, ios_base &s, char fill, long long v) const override { return do_put(o, s, fill, (long)v); }
    iter_type do_put(iter_type o, ios_base &s, char fill, unsigned long long v) const override { return do_put(o, s, fill, (unsigned long)v); }
};
} // namespace std
namespace
{
alignas(16) char ctype_buf[sizeof(std::ctype<char>)];
alignas(16) char get_buf[sizeof(std::sx_num_get)], put_buf[sizeof(std::sx_num_put)];
std::ctype_base::mask ctab[256];
bool facets_ready;
void facets()
{
    if (facets_ready) return;
    facets_ready = true;
    using B = std::ctype_base;
    for (int c = 0; c < 128; c++) {
        B::mask m = 0;
        if (c == ' ' || (c >= 9 && c <= 13)) m |= B::space;
        if (c >= '0' && c <= '9') m |= B::digit | B::xdigit | B::graph | B::print;
        if (c >= 'a' && c <= 'z') m |= B::lower | B::alpha | B::graph | B::print;
        if (c >= 'A' && c <= 'Z') m |= B::upper | B::alpha | B::graph | B::print;
        ctab[c] = m;
    }
    auto *ct = (std::ctype<char> *)ctype_buf;
    ct->_M_table = ctab;
    ct->_M_widen_ok = 1;
    ct->_M_narrow_ok = 1;
    for (int i = 0; i < 256; i++) ct->_M_widen[i] = ct->_M_narrow[i] = (char)i;
    new (get_buf) std::sx_num_get();
    new (put_buf) std::sx_num_put();
}
} // namespace
template<> void std::basic_ios<char>::_M_cache_locale(const std::locale &)
{
    facets();
    _M_ctype = (const std::ctype<char> *)ctype_buf;
    _M_num_get = (const std::num_get<char, std::istreambuf_iterator<char>> *)(std::num_get<char> *)(std::sx_num_get *)get_buf;
    _M_num_put = (const std::num_put<char, std::ostreambuf_iterator<char>> *)(std::num_put<char> *)(std::sx_num_put *)put_buf;
}
namespace std
{
// std::getline: same semantics as the library's streambuf-scanning specialisation
template<> basic_istream<char> &getline(basic_istream<char> &in, basic_string<char> &str, char delim)
{
    ios_base::iostate err = ios_base::goodbit;
    istream::sentry ok(in, true);
    bool got = false;
    if (ok) {
        str.erase();
        int c = in.rdbuf()->sgetc();
        for (;;) {
            if (c == EOF) {
                err |= ios_base::eofbit;
                break;
            }
            if ((char)c == delim) {
                got = true;
                in.rdbuf()->sbumpc();
                break;
            }
            got = true;
            str.push_back((char)c);
            c = in.rdbuf()->snextc();
        }
    }
    if (!got) err |= ios_base::failbit;
    if (err) in.setstate(err);
    return in;
}
} // namespace std

// ---- libfmt -----------------------------------------------------------------------------
namespace
{
using fctx = fmt::format_context;
struct Put
{
    fmt::detail::buffer<char> &b;
    void c(char x) { b.push_back(x); }
    void s(const char *p, size_t n) { for (size_t i = 0; i < n; i++) b.push_back(p[i]); }
};
struct Spec
{
    int width = 0;
    bool zero = false;
    char fill = ' ', align = 0;
};
int fmt_double(char *o, double v, bool flt)
{
    int k = 0;
    if (__builtin_signbit(v)) {
        o[k++] = '-';
        v = -v;
    }
    if (v != v) { memcpy(o + k, "nan", 3); return k + 3; }
    if (v > 1.7976931348623157e308) { memcpy(o + k, "inf", 3); return k + 3; }
    // values that are an exact multiple of 10^-e with at most 15 significant digits
    double m = 1;
    for (int e = 0; e <= 9; e++, m *= 10) {
        double t = v * m;
        if (t >= 1e15) break;
        unsigned long u = (unsigned long)t;
        if ((double)u == t && (flt ? (double)(float)((double)u / m) : (double)u / m) == v) {
            unsigned long ip = u, fp = 0, q = 1;
            for (int i = 0; i < e; i++) q *= 10;
            ip = u / q;
            fp = u % q;
            k += std::decimal(o + k, ip, false);
            if (e) {
                o[k++] = '.';
                for (int i = 0; i < e; i++) {
                    q /= 10;
                    o[k++] = (char)('0' + fp / q % 10);
                }
            }
            return k;
        }
    }
    sx_bound(); // any other value: outside the modelled formatter
}
struct Vis
{
    Put &p;
    Spec sp;
    fmt::string_view spec_text;
    fctx *ctx;
    void pad(const char *s, int n, bool num)
    {
        int w = sp.width - n;
        if (w < 0) w = 0;
        char al = sp.align ? sp.align : (num ? '>' : '<');
        int l = al == '>' ? w : al == '^' ? w / 2 : 0;
        if (sp.zero && num && !sp.align) {
            int neg = n && s[0] == '-';
            if (neg) p.c('-');
            for (int i = 0; i < w; i++) p.c('0');
            p.s(s + neg, n - neg);
            return;
        }
        for (int i = 0; i < l; i++) p.c(sp.fill);
        p.s(s, n);
        for (int i = 0; i < w - l; i++) p.c(sp.fill);
    }
    void num(unsigned long u, bool neg)
    {
        char b[24];
        pad(b, std::decimal(b, u, neg), true);
    }
    void operator()(fmt::monostate) { sx_fail("fmt: missing argument"); }
    void operator()(int v) { num(v < 0 ? 0ul - (unsigned long)(long)v : v, v < 0); }
    void operator()(unsigned v) { num(v, false); }
    void operator()(long long v) { num(v < 0 ? 0ul - (unsigned long)v : v, v < 0); }
    void operator()(unsigned long long v) { num(v, false); }
    void operator()(__int128) { sx_bound(); }
    void operator()(unsigned __int128) { sx_bound(); }
    void operator()(bool v) { v ? pad("true", 4, false) : pad("false", 5, false); }
    void operator()(char v) { pad(&v, 1, false); }
    void operator()(float v) { char b[48]; pad(b, fmt_double(b, v, true), true); }
    void operator()(double v) { char b[48]; pad(b, fmt_double(b, v, false), true); }
    void operator()(long double) { sx_bound(); }
    void operator()(const char *s) { pad(s, (int)strlen(s), false); }
    void operator()(fmt::string_view s) { pad(s.data(), (int)s.size(), false); }
    void operator()(const void *) { pad("0x0", 3, false); }
    void operator()(fmt::basic_format_arg<fctx>::handle h)
    {
        fmt::format_parse_context pc(spec_text);
        h.format(pc, *ctx);
    }
};
} // namespace
FMT_BEGIN_NAMESPACE
namespace detail
{
template<> void vformat_to<char>(buffer<char> &buf, string_view f, format_args args, locale_ref)
{
    Put p{buf};
    fctx ctx(appender(buf), args, {});
    int next = 0;
    for (size_t i = 0; i < f.size(); i++) {
        char c = f.data()[i];
        if (c == '{' && i + 1 < f.size() && f.data()[i + 1] == '{') { p.c('{'); i++; continue; }
        if (c == '}') { p.c('}'); i++; continue; }
        if (c != '{') { p.c(c); continue; }
        i++;
        Spec sp;
        int id = -1;
        while (i < f.size() && f.data()[i] >= '0' && f.data()[i] <= '9') id = (id < 0 ? 0 : id) * 10 + (f.data()[i++] - '0');
        if (id < 0) id = next++;
        size_t st = i;
        if (f.data()[i] == ':') {
            i++;
            st = i;
            if (i + 1 < f.size() && (f.data()[i + 1] == '<' || f.data()[i + 1] == '>' || f.data()[i + 1] == '^')) {
                sp.fill = f.data()[i];
                sp.align = f.data()[i + 1];
                i += 2;
            } else if (f.data()[i] == '<' || f.data()[i] == '>' || f.data()[i] == '^')
                sp.align = f.data()[i++];
            if (f.data()[i] == '0') { sp.zero = true; i++; }
            while (f.data()[i] >= '0' && f.data()[i] <= '9') sp.width = sp.width * 10 + (f.data()[i++] - '0');
            if (f.data()[i] == 'd' || f.data()[i] == 's') i++;
            if (f.data()[i] != '}') {
                // precision / type: skip to the end; only arguments of custom types may use it
                while (f.data()[i] != '}') i++;
            }
        }
        Vis v{p, sp, string_view(f.data() + st, f.size() - st), &ctx};
        visit_format_arg(v, args.get(id));
    }
}
} // namespace detail
void vprint(string_view, format_args) {}
void vprint(std::FILE *, string_view, format_args) {}
std::string vformat(string_view f, format_args args)
{
    struct sbuf : detail::buffer<char>
    {
        std::string s;
        void grow(size_t n) override
        {
            s.resize(n < 64 ? 64 : n * 2);
            set(s.data(), s.size());
        }
        sbuf() : detail::buffer<char>(nullptr, 0, 0) {}
    } b;
    detail::vformat_to<char>(b, f, args, {});
    return std::string(b.data() ? b.data() : "", b.size());
}
FMT_END_NAMESPACE
