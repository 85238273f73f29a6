// Entity text: the tokenizer, entity dictionaries, and writing and reading entity lumps.
#include "sx.h"
#include <common/entdata.h>
#include <common/parser.hh>
#include <common/cmdlib.hh>
#include <cstring>
#include <stdexcept>
#include <optional>
#include <string>
#include <vector>

// text in a buffer of exactly its size: nothing follows it
struct exact_t
{
    char *p;
    size_t n;
    explicit exact_t(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
    ~exact_t() { delete[] p; }
};

struct item_t
{
    std::string text; // the token
    bool quoted;
    int line; // the line it starts on
};
struct doc_t
{
    std::string s;
    int line = 1;
    std::vector<item_t> items;

    // n characters of white space; each is any of those, or a line end if wanted
    void gap(int n, bool nl)
    {
        for (int i = 0; i < n; i++) {
            char c = sx_any<char>("space");
            sx_assume((c <= 32) & (c > 0) & (c != '\n'));
            if (nl && i == n - 1) {
                c = '\n';
                line++;
            }
            s += c;
        }
    }
    void comment(bool semi, int n)
    {
        s += semi ? ";" : "//";
        for (int i = 0; i < n; i++) {
            char c = sx_any<char>("comment");
            sx_assume((c != 0) & (c != '\n'));
            s += c;
        }
        s += '\n';
        line++;
    }
    void word(int n)
    {
        std::string w;
        for (int i = 0; i < n; i++) {
            char c = sx_any<char>("word");
            sx_assume(c > 32);
            if (i == 0) sx_assume((c != '"') & (c != ';') & (c != '/'));
            w += c;
        }
        s += w;
        items.push_back({w, false, line});
    }
    // shape: p plain, e escape, q escaped quote
    void quoted(const char *shape)
    {
        std::string w;
        for (const char *x = shape; *x; x++) {
            char c = sx_any<char>("quoted");
            if (*x == 'p') {
                sx_assume((c != 0) & (c != '"') & (c != '\\'));
                if (x != shape && x[-1] == 'q') sx_assume((c != '\r') & (c != '\n')); // ends the text there
                w += c;
            } else if (*x == 'e') {
                sx_assume((c != 0) & (c != '"'));
                w += '\\';
                w += c;
            } else {
                w += "\\\"";
            }
        }
        int l = line;
        s += '"' + w + '"';
        items.push_back({w, true, l});
    }
};

// a parser over any kind of tokens gives exactly the tokens of the text, in order, with where they are
SX_ENTRY(tokens)
{
    static const char *docs[] = {
        // g gap, n gap with a line end, c comment, s ; comment, wN word, q"shape"
        "nwgwnw", "gcwnswgc", "q.gq.w", "wgcgq.n", "q.gwgq.", "nncsgq.", "wggwgq.ng"};
    static const char *shapes[] = {"", "p", "pp", "e", "pe", "qp", "ep", "pqe"};
    doc_t d;
    int len = (int)sx_param(1), shape = (int)sx_param(2);
    for (const char *x = docs[sx_param(0)]; *x; x++) {
        if (*x == 'g') d.gap(1 + len % 2, false);
        else if (*x == 'n') d.gap(1 + len % 2, true);
        else if (*x == 'c') {
            d.comment(false, len);
        } else if (*x == 's') d.comment(true, len);
        else if (*x == 'w') d.word(1 + len % 3);
        else if (*x == 'q') d.quoted(shapes[shape % 8]), shape++;
    }
    exact_t e(d.s);
    parser_t p(e.p, e.n, parser_source_location("t"));
    for (auto &i : d.items) {
        sx_assert(!p.at_end(), "there is more to read");
        sx_assert(p.parse_token(PARSE_PEEK), "there is a token");
        sx_assert(p.token == i.text && p.was_quoted == i.quoted, "peeking shows the next token");
        p.push_state();
        bool ok = p.parse_token();
        sx_assert(ok, "the token is read");
        sx_assert(p.token == i.text, "the token is what the text says");
        sx_assert(p.was_quoted == i.quoted, "quoted tokens are told from words");
        sx_assert(p.location.line_number.value() == (size_t)i.line, "the line number of the token is right");
        const char *after = p.pos;
        p.pop_state();
        sx_assert(p.parse_token() && p.token == i.text && p.pos == after, "a saved position reads the same token again");
        sx_assert(p.location.line_number.value() == (size_t)i.line, "a saved position has its line number");
    }
    sx_assert(!p.parse_token(PARSE_PEEK) && !p.parse_token() && p.token.empty(), "nothing follows the last token");
    sx_assert(p.at_end(), "everything was read");
    sx_reach("tokens");
}

// reading within a line
SX_ENTRY(lines)
{
    int what = (int)sx_param(0);
    doc_t d;
    d.word(1);
    d.gap(1, false);
    bool more = false;
    if (what == 0) d.word(2), more = true;
    else if (what == 1) d.quoted("pp"), more = true;
    else if (what == 2) d.gap(1, true), d.word(1);
    else if (what == 3) d.comment(false, 2), d.word(1);
    else if (what == 4) d.comment(true, 2), d.quoted("p");
    exact_t e(d.s);
    for (int mode = 0; mode < 3; mode++) {
        parser_t p(e.p, e.n, parser_source_location("t"));
        sx_assert(p.parse_token() && p.token == d.items[0].text, "first token");
        bool threw = false, got = false;
        try {
            got = p.parse_token(mode == 0 ? PARSE_SAMELINE : mode == 1 ? PARSE_OPTIONAL : PARSE_COMMENT | PARSE_OPTIONAL);
        } catch (const std::exception &) {
            threw = true;
        }
        if (mode == 0) {
            sx_assert(threw == !more, "a token required on the line is an error exactly when there is none");
            if (!more) continue;
            sx_assert(got && p.token == d.items[1].text, "the token on the line is read");
        } else if (mode == 1) {
            sx_assert(!threw && got == more, "an optional token is found exactly when the line has one");
            if (got) sx_assert(p.token == d.items[1].text, "the optional token is read");
            else if (d.items.size() > 1) {
                sx_assert(p.parse_token() && p.token == d.items[1].text, "the next line's token is still there");
                sx_assert(p.location.line_number.value() == 2, "and its line is right");
            }
        } else {
            sx_assert(!threw && got == (what == 3 || what == 4), "a comment is found exactly when the line has one");
            if (got) {
                size_t at = d.s.find(what == 3 ? "//" : ";", 2);
                sx_assert(p.token == d.s.substr(at, d.s.find('\n', at) - at), "the comment is the rest of the line");
            } 
            size_t next = 1;
            if (next < d.items.size())
                sx_assert(p.parse_token() && p.token == d.items[next].text, "the next token is still there");
        }
    }
    sx_reach("lines");
}

// editors write "wad" "c:\dir\": a backslash and quote at the end of a line end the text
SX_ENTRY(broken_path)
{
    static const char *ends[] = {"\n", "\r\n", "\r"};
    std::string w;
    for (int i = 0; i < sx_param(1); i++) {
        char c = sx_any<char>("quoted");
        sx_assume((c != 0) & (c != '"') & (c != '\\'));
        w += c;
    }
    w += '\\';
    exact_t e("\"" + w + "\"" + ends[sx_param(0)] + "\"k\" \"v\"");
    parser_t p(e.p, e.n, parser_source_location("t"));
    sx_assert(p.parse_token() && p.token == w && p.was_quoted, "the text ends at its line's end");
    sx_assert(p.parse_token() && p.token == "k" && p.parse_token() && p.token == "v" && !p.parse_token(), "what follows is read");
    sx_reach("broken_path");
}

static bool usable(const std::string &s, bool key)
{
    // what quotes cannot express; and the word that ends an entity
    for (size_t i = 0; i < s.size(); i++)
        if (!s[i] || s[i] == '"') return false;
    if (!s.empty() && s.back() == '\\') return false;
    if (s == "}") return false;
    if (key && !s.empty()) {
        auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
        if (ws(s.front()) || ws(s.back())) return false;
    }
    return true;
}
static std::string text(int n, const char *name, bool key)
{
    std::string s(n, ' ');
    for (auto &c : s) c = sx_any<char>(name);
    // every condition at once: no forks
    int ok = 1;
    for (int i = 0; i < n; i++) ok &= (s[i] != 0) & (s[i] != '"');
    if (n) ok &= s[n - 1] != '\\';
    if (n == 1) ok &= s[0] != '}';
    if (key && n)
        for (char c : {s[0], s[n - 1]}) ok &= (c != ' ') & ((c < 9) | (c > 13));
    sx_assume(ok);
    return s;
}

// a written entity lump reads back as it was
SX_ENTRY(roundtrip)
{
    int n = (int)sx_param(0), m = (int)sx_param(1), kl = (int)sx_param(2), vl = (int)sx_param(3);
    std::vector<entdict_t> ents(n);
    for (int i = 0; i < n; i++) {
        std::vector<std::string> keys;
        for (int j = 0; j < (i == 0 ? m : 1); j++) {
            std::string k = text((kl + j * 2) % 4, "key", true);
            for (auto &o : keys)
                if (o.size() == k.size()) sx_assume(o != k);
            keys.push_back(k);
            ents[i].set(k, text((vl + i + j) % 4, "value", false));
        }
    }
    std::string out = EntData_Write(ents);
    exact_t e(out);
    parser_t p(std::string_view(e.p, e.n), parser_source_location("t"));
    std::vector<entdict_t> back = EntData_Parse(p);
    sx_assert(back.size() == ents.size(), "as many entities are read as were written");
    for (int i = 0; i < n; i++) sx_assert(back[i] == ents[i], "the entity reads back with the same keys and values in the same order");
    sx_reach("roundtrip");
}

// any bytes, also when cut off anywhere: entities or an error, nothing read outside the text; what was read
// writes and reads back as the same
SX_ENTRY(bytes)
{
    static const char *pre[] = {"", "{", "{\"k\"", "{\"k\" \"", "{\"k\" v ", "{\"k\" \"v\" /", "{\"k\" \"v\"}", "{\"k\" \"\\"};
    static const char *post[] = {"", "}", "\"}", "\n}", " \"v\"}"};
    int n = (int)sx_param(1);
    std::string s = pre[sx_param(0)];
    for (int i = 0; i < n; i++) s += sx_any<char>("byte");
    s += post[sx_param(2)];
    exact_t e(s);
    std::vector<entdict_t> ents;
    try {
        parser_t p(std::string_view(e.p, e.n), parser_source_location("t"));
        EntData_ParseInto(p, ents);
    } catch (const std::exception &) {
        sx_reach("refused");
        return;
    }
    sx_reach("read");
    for (auto &d : ents)
        for (auto &[k, v] : d) {
            int count = 0;
            for (auto &[k2, v2] : d) count += k2 == k;
            sx_assert(count == 1, "a key occurs once");
            if (!usable(k, true) || !usable(v, false)) return;
        }
    std::string out = EntData_Write(ents);
    parser_t q(std::string_view(out), parser_source_location("t"));
    std::vector<entdict_t> again = EntData_Parse(q);
    sx_assert(again.size() == ents.size(), "writing and reading keeps the number of entities");
    for (size_t i = 0; i < ents.size(); i++) sx_assert(again[i] == ents[i], "writing and reading keeps the entity");
}

// keys keep their place and their last value; white space around them is dropped
SX_ENTRY(duplicates)
{
    int b = (int)sx_param(0), a = (int)sx_param(1);
    std::string k1 = text((int)sx_param(2), "key", true), k2 = text((int)sx_param(2), "key", true);
    std::string v[3];
    for (auto &x : v) x = text(1, "value", false);
    auto ws = [](int n) {
        std::string s;
        static const char set[] = {' ', '\t', '\r', '\n', '\v', '\f'};
        for (int i = 0; i < n; i++) s += set[sx_choice(6, "space")];
        return s;
    };
    std::string t = "{ \"" + k1 + "\" \"" + v[0] + "\" \"" + ws(b) + k2 + ws(a) + "\" \"" + v[1] + "\" \"" + k1 + "\" \"" + v[2] + "\" }";
    exact_t e(t);
    parser_t p(std::string_view(e.p, e.n), parser_source_location("t"));
    entdict_t d(p);
    if (k1 == k2) {
        sx_assert(d.size() == 1, "one key");
    } else {
        sx_assert(d.size() == 2, "two keys");
        sx_assert((d.begin() + 1)->first == k2 && (d.begin() + 1)->second == v[1], "the other key's value, its white space dropped");
        sx_assert(d.get(k2) == v[1], "the other key's value is found");
    }
    sx_assert(d.begin()->first == k1 && d.begin()->second == v[2], "a repeated key keeps its place and takes the last value");
    sx_reach("duplicates");
}

// a dictionary behaves as an ordered list of distinct keys
SX_ENTRY(dict)
{
    int n = (int)sx_param(0), first = (int)sx_param(1);
    static const char *names[] = {"a", "b", "ab", ""};
    entdict_t d;
    std::vector<std::pair<std::string, std::string>> m;
    auto find = [&](const std::string &k) {
        for (size_t i = 0; i < m.size(); i++)
            if (m[i].first == k) return (int)i;
        return -1;
    };
    d.set("b", "0");
    m.push_back({"b", "0"});
    for (int i = 0; i < n; i++) {
        int op = i == 0 ? first : (int)sx_choice(3, "operation");
        std::string k = names[sx_choice(4, "key")];
        if (op == 0) {
            std::string v(1 - i % 2 + sx_param(2), ' ');
            for (auto &c : v) c = sx_any<char>("value");
            d.set(k, v);
            int at = find(k);
            if (at < 0) m.push_back({k, v});
            else m[at].second = v;
        } else if (op == 1) {
            d.remove(k);
            int at = find(k);
            if (at >= 0) m.erase(m.begin() + at);
        } else {
            // to a key that is not there
            std::string to = names[sx_choice(4, "new key")];
            if (find(to) >= 0) continue;
            d.rename(k, to);
            int at = find(k);
            if (at >= 0) {
                auto v = m[at].second;
                m.erase(m.begin() + at);
                m.push_back({to, v});
            }
        }
        sx_assert(d.size() == m.size(), "as many keys");
        size_t j = 0;
        for (auto &[a, b] : d) {
            sx_assert(a == m[j].first && b == m[j].second, "the same keys and values in the same order");
            j++;
        }
        for (auto *x : names) {
            int at = find(x);
            sx_assert(d.has(x) == (at >= 0), "has() says whether the key is there");
            sx_assert(d.get(x) == (at >= 0 ? m[at].second : std::string()), "get() gives the value or an empty one");
        }
    }
    sx_reach("dict");
}

// numbers in values
SX_ENTRY(numbers)
{
    int digits = (int)sx_param(0), sign = (int)sx_param(1), tail = (int)sx_param(2);
    std::string s(sign == 2 ? "-" : sign == 1 ? " +" : "");
    long v = 0;
    for (int i = 0; i < digits; i++) {
        char c = sx_any<char>("digit");
        sx_assume((c >= '0') & (c <= '9'));
        s += c;
        v = v * 10 + (c - '0');
    }
    if (sign == 2) v = -v;
    if (tail) {
        char c = sx_any<char>("tail");
        sx_assume(((c < '0') | (c > '9')) & (c != '.') & (c != 'e') & (c != 'E') & (c != 'x') & (c != 'X') & (c != 0));
        s += c;
        s += "7";
    }
    entdict_t d;
    d.set("n", s);
    sx_assert(d.get_int("n") == (int32_t)v, "the number in a value");
    sx_assert(d.get_float("n") == (double)v, "the number in a value, as a floating-point one");
    sx_assert(d.get_int("m") == 0 && d.get_float("m") == 0, "a missing key is zero");
    sx_reach("numbers");
}

// command lines are read as their arguments, one by one
SX_ENTRY(arguments)
{
    int n = (int)sx_param(0), len = (int)sx_param(1);
    std::vector<std::string> args(n);
    std::vector<const char *> ptrs;
    for (int i = 0; i < n; i++) {
        args[i].resize((len + i) % 3);
        for (auto &c : args[i]) {
            c = sx_any<char>("argument");
            sx_assume((c > 0));
        }
        ptrs.push_back(args[i].c_str());
    }
    token_parser_t p(n, ptrs.data(), parser_source_location("t"));
    for (int i = 0; i < n; i++) {
        sx_assert(!p.at_end() && p.parse_token(PARSE_PEEK) && p.token == args[i], "peeking shows the argument");
        p.push_state();
        sx_assert(p.parse_token() && p.token == args[i], "the argument is read");
        p.pop_state();
        sx_assert(p.parse_token() && p.token == args[i], "a saved position reads it again");
    }
    sx_assert(p.at_end() && !p.parse_token() && p.token.empty(), "nothing follows the last argument");
    sx_reach("arguments");
}
