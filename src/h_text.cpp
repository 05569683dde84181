// C01 tokenizer, C02 integer/bool/char conversion, C03 float/string/user-type conversion
#include "mc.h"
#include <cli/cli.h>
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <sstream>

using namespace std;
using namespace mc;

// ---------------------------------------------------------------- reference tokenizer
struct Tok { vector<string> t; bool dangling = false; };

static Tok ref_split(const string& s)
{
    Tok r; size_t i = 0; const size_t n = s.size();
    auto blank = [](char c) { return c == ' ' || c == '\t' || c == '\n'; };
    auto special = [&](char c) { return blank(c) || c == '\'' || c == '"' || c == '!'; };
    string tok;
    auto esc = [&] {            // s[i] is a backslash
        if (i + 1 == n) { r.dangling = true; ++i; return; }
        char c = s[i + 1];
        if (c != '\'' && c != '"' && c != '\\') tok += '\\';
        tok += c; i += 2;
    };
    while (i < n) {
        tok.clear();
        if (blank(s[i])) { ++i; continue; }
        if (s[i] == '!') { r.t.push_back("!"); ++i; continue; }
        if (s[i] == '\'' || s[i] == '"') {
            char q = s[i++];
            while (i < n && s[i] != q) { if (s[i] == '\\') esc(); else tok += s[i++]; }
            ++i;
        } else {
            while (i < n && !special(s[i])) { if (s[i] == '\\') esc(); else tok += s[i++]; }
        }
        if (!tok.empty() || r.dangling) r.t.push_back(tok);
    }
    return r;
}

static string quote(const string& s, char q)
{
    string r(1, q);
    for (char c : s) { if (c == '\'' || c == '"' || c == '\\') r += '\\'; r += c; }
    return r + q;
}

struct Bed {
    ostringstream out;
    vector<vector<string>> calls; int wrong = 0; vector<string> wrongs;
    unique_ptr<cli::Cli> c; unique_ptr<cli::CliSession> s;
    Bed()
    {
        auto root = make_unique<cli::Menu>("r");
        root->Insert("c", [this](ostream&, const vector<string>& a) { calls.push_back(a); });
        c = make_unique<cli::Cli>(move(root));
        c->WrongCommandHandler([this](ostream&, const string& l) { ++wrong; wrongs.push_back(l); });
        s = make_unique<cli::CliSession>(*c, out, 3);
    }
};

static void check_line(Ctx& c, const string& line)
{
    Tok e = ref_split(line);
    vector<string> got;
    cli::detail::split(got, line);
    c.step();
    c.state(hs(showv(got)));
    if (e.dangling) {   // the token ended by a dangling backslash is not specified
        size_t n = e.t.size() - 1;
        if (got.size() < n || !equal(e.t.begin(), e.t.begin() + n, got.begin())) { c.fail("line " + show(line) + " split into " + showv(got) + ", expected " + showv(vector<string>(e.t.begin(), e.t.begin() + n)) + " first"); }
        return;
    }
    if (got != e.t) { c.fail("line " + show(line) + " split into " + showv(got) + ", expected " + showv(e.t)); return; }
    for (auto& t : got) if (t.empty()) { c.fail("empty token in " + show(line)); return; }
}

static void check_cmd(Ctx& c, const string& line, const vector<string>& expect)
{
    Bed b;
    b.s->Feed(line);
    c.step();
    if (b.calls.size() != 1 || b.wrong) { c.fail("line " + show(line) + ": handler ran " + to_string(b.calls.size()) + " times, wrong command reported " + to_string(b.wrong) + " times"); return; }
    if (b.calls[0] != expect) c.fail("line " + show(line) + ": handler received " + showv(b.calls[0]) + ", expected " + showv(expect));
}

static string pick(Ctx& c, const string& alpha, int maxlen, int minlen = 0)
{
    string s;
    for (int i = 0; i < maxlen; ++i) {
        if (i >= minlen) { unsigned k = c.choose(alpha.size() + 1, "char or end"); if (!k) break; s += alpha[k - 1]; }
        else s += alpha[c.choose(alpha.size(), "char")];
    }
    return s;
}

static Reg r1({"C01", "lines", "detail::split against the reference tokenizer on every line over {a, blank, \", ', \\, !, newline, b} up to the bound",
    {5, 8}, {5, 8, 9}, [](Ctx& c) { string l = pick(c, "a \"'\\!\n", c.bound()); if (c.noting()) { vector<string> g; cli::detail::split(g, l); c.note(show(l) + " -> " + showv(g)); } check_line(c, l); }});

static Reg r1b({"C01", "session-lines", "arguments received by a list-of-strings handler through CliSession::Feed for every line suffix over the alphabet up to the bound",
    {4, 6}, {6, 7}, [](Ctx& c) {
        string l = "c " + pick(c, "a \"'\\!\t", c.bound());
        Tok e = ref_split(l);
        if (e.dangling) { c.prune(); return; }
        c.note(show(l) + " expects " + showv(e.t));
        vector<string> a(e.t.begin() + 1, e.t.end());
        check_cmd(c, l, a); c.state(hs(showv(a)));
    }});

static Reg r2({"C01", "verbatim", "every non-empty argument over {a, blank, tab, \", ', \\, !, newline} up to the bound, quoted with either quote, alone, after, before and glued to other tokens, arrives verbatim",
    {3, 5}, {5, 6}, [](Ctx& c) {
        string arg = pick(c, "a \"'\\!\t\n", c.bound(), 1);
        char q = c.choose(2) ? '\'' : '"';
        string Q = quote(arg, q);
        c.note(show(arg) + " quoted as " + show(Q));
        switch (c.choose(5, "position")) {
            case 0: check_cmd(c, "c " + Q, {arg}); break;
            case 1: check_cmd(c, "c x " + Q, {"x", arg}); break;
            case 2: check_cmd(c, "c " + Q + " x", {arg, "x"}); break;
            case 3: check_cmd(c, "c" + Q + "x", {arg, "x"}); break;
            case 4: check_cmd(c, "c\t" + Q + quote("y z", '"') + quote(arg, q == '"' ? '\'' : '"'), {arg, "y z", arg}); break;
        }
        c.state(hs(arg));
    }});

static Reg r3({"C01", "bytes", "every byte value in every tokenizer context: word start, in a word, in either quote, after a backslash in each; every pair of bytes from the special set around it",
    {1}, {1}, [](Ctx& c) {
        unsigned char x = c.choose(256, "byte");
        static const vector<pair<string, string>> ctxs = {
            {"", ""}, {"", "b"}, {"a", "b"}, {"a ", " b"}, {"\"", "\""}, {"\"a", "b\" c"}, {"'", "'"}, {"'a", "b'd"}, {"\\", "a"}, {"a\\", "b"}, {"\"\\", "b\""}, {"'a\\", "b'"},
            {"!", "!"}, {"a!", "b"}, {"\"\"", "x"}, {"''", "''"}, {"\\\\", "\\\\"}, {"'\"", "\"'"}, {"\"'", "'\""}, {"\"a", ""}, {"'a", ""}, {"\t\n", "\n\t"}};
        auto& k = ctxs[c.choose(ctxs.size(), "context")];
        string l = k.first + string(1, (char)x) + k.second;
        c.note(show(l));
        check_line(c, l);
    }});

static Reg r4({"C01", "long", "token counts and lengths: n tokens of length m with every separator",
    {1}, {1}, [](Ctx& c) {
        static const int ns[] = {0, 1, 2, 3, 17, 200, 1000};
        int n = ns[c.choose(7)], m = ns[1 + c.choose(6)];
        static const string seps[] = {" ", "\t", "\n", "  ", "!"};
        string sep = seps[c.choose(5)]; bool q = c.choose(2); bool lead = c.choose(2);
        string l = lead ? " " : ""; vector<string> e;
        for (int i = 0; i < n; ++i) { string t(m, 'a' + i % 26); l += q ? "\"" + t + " \"" : t; e.push_back(q ? t + " " : t); if (sep != "!" || i + 1 < n) { l += sep; if (sep == "!") e.push_back("!"); } }
        vector<string> got; cli::detail::split(got, l); c.step(); c.state(mix(n * 7919 + m, lead * 2 + q));
        if (got != e) c.fail("line with " + to_string(n) + " tokens of length " + to_string(m) + " split into " + to_string(got.size()) + " tokens, expected " + to_string(e.size()));
    }});

// ---------------------------------------------------------------- C02
template <class T> struct TBed {
    ostringstream out; vector<T> calls; int wrong = 0;
    unique_ptr<cli::Cli> c; unique_ptr<cli::CliSession> s;
    TBed()
    {
        auto root = make_unique<cli::Menu>("r");
        root->Insert("c", [this](ostream&, T v) { calls.push_back(v); });
        c = make_unique<cli::Cli>(move(root));
        c->WrongCommandHandler([this](ostream&, const string&) { ++wrong; });
        s = make_unique<cli::CliSession>(*c, out, 2);
    }
};

// reference: sign, digits, range by decimal string comparison
static bool ref_int(const string& s, bool sgn, const string& maxs, const string& mins /*abs*/, __int128& v)
{
    size_t i = 0; bool neg = false;
    if (i < s.size() && (s[i] == '+' || (sgn && s[i] == '-'))) { neg = s[i] == '-'; ++i; }
    if (i == s.size()) return false;
    string d;
    for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; if (!(d.empty() && s[i] == '0')) d += s[i]; }
    const string& lim = neg ? mins : maxs;
    if (d.size() > lim.size() || (d.size() == lim.size() && d > lim)) return false;
    v = 0; for (char c : d) v = v * 10 + (c - '0');
    if (neg) v = -v;
    return true;
}
static string dec(__int128 v) { if (v == 0) return "0"; bool n = v < 0; if (n) v = -v; string r; while (v) { r += char('0' + int(v % 10)); v /= 10; } if (n) r += '-'; reverse(r.begin(), r.end()); return r; }

template <class T> static void int_token(Ctx& c, TBed<T>& b, const string& tok, const char* tn)
{
    using L = numeric_limits<T>;
    __int128 mx = L::max(), mn = L::min();
    __int128 v; bool ok = ref_int(tok, L::is_signed, dec(mx), dec(mn < 0 ? -mn : 0), v);
    b.calls.clear(); b.wrong = 0;
    b.s->Feed("c " + quote(tok, '"'));
    c.step();
    c.state(mix(hs(tok), hs(tn)));
    if (ok) {
        if (b.calls.size() != 1 || b.wrong) c.fail(string(tn) + " token " + show(tok) + " must be accepted, but the handler ran " + to_string(b.calls.size()) + " times and wrong command was reported " + to_string(b.wrong) + " times");
        else if (static_cast<__int128>(b.calls[0]) != v) c.fail(string(tn) + " token " + show(tok) + " converted to " + dec(b.calls[0]));
    } else if (!b.calls.empty() || b.wrong != 1)
        c.fail(string(tn) + " token " + show(tok) + " must be refused, but the handler ran " + to_string(b.calls.size()) + " times" + (b.calls.empty() ? "" : " with " + dec(b.calls[0])) + " and wrong command was reported " + to_string(b.wrong) + " times");
}

// tokens around a limit: every digit of the limit changed by +-1, digits appended, signs and zeros prepended
template <class T> static string near_limit(Ctx& c)
{
    using L = numeric_limits<T>;
    __int128 mx = L::max(), mn = L::min(); __int128 two = mx - mn + 1;
    vector<__int128> bases = {mx, -mn, two, two / 10, mx / 10, two * 10, mx * 10, two * 2, two + mx, 0, two * 3, two * 7 / 10};
    __int128 base = bases[c.choose(bases.size(), "base")];
    __int128 v = base + static_cast<int>(c.choose(25, "delta")) - 12;
    if (v < 0) v = -v;
    string d = dec(v);
    unsigned app = c.choose(12, "append");
    if (app >= 1 && app <= 10) d += char('0' + app - 1); else if (app == 11) d += "00000000000000000000";
    static const char* pre[] = {"", "+", "-", "0", "-0", "+000000000000000000000000000000", "-000000000000000000000000000000", "--", "+-", "-+", " ", "++"};
    d = pre[c.choose(12, "prefix")] + d;
    static const char* post[] = {"", " ", "a", ".", "-"};
    return d + post[c.choose(5, "suffix")];
}

template <class F> static void with_int_type(Ctx& c, F f)
{
    switch (c.choose(10, "type")) {
        case 0: f((short)0, "short"); break;
        case 1: f((unsigned short)0, "unsigned short"); break;
        case 2: f((int)0, "int"); break;
        case 3: f((unsigned)0, "unsigned"); break;
        case 4: f((long)0, "long"); break;
        case 5: f((unsigned long)0, "unsigned long"); break;
        case 6: f((long long)0, "long long"); break;
        case 7: f((unsigned long long)0, "unsigned long long"); break;
        case 8: f((signed char)0, "signed char"); break;
        case 9: f((unsigned char)0, "unsigned char"); break;
    }
}

static Reg c2a({"C02", "limits", "for the 10 integer types, every token made of a limit-derived value +-12, an appended digit, a prefix (signs, zeros) and a suffix",
    {1}, {1}, [](Ctx& c) { with_int_type(c, [&](auto z, const char* n) { TBed<decltype(z)> b; string t = near_limit<decltype(z)>(c); c.note(string(n) + " " + show(t)); int_token(c, b, t, n); }); }});

static Reg c2b({"C02", "short-tokens", "for the 10 integer types, every token over {0,1,5,9,+,-,a,.,blank} up to the bound",
    {3, 5}, {5, 6}, [](Ctx& c) { with_int_type(c, [&](auto z, const char* n) { TBed<decltype(z)> b; string t = pick(c, "0159+-a. ", c.bound(), 1); c.note(string(n) + " " + show(t)); int_token(c, b, t, n); }); }});

static Reg c2c({"C02", "narrow-exhaustive", "every integer -70000..70000 (and with a leading + or 0) for the 8 and 16 bit types and int",
    {1}, {1}, [](Ctx& c) {
        int chunk = static_cast<int>(c.choose(280, "chunk of 500")) - 140;
        auto go = [&](auto z, const char* n) {
            TBed<decltype(z)> b; unsigned pre = c.choose(3, "prefix");
            for (int k = 0; k < 500 && !c.failed(); ++k) { int v = chunk * 500 + k; string s = to_string(v < 0 ? -v : v); if (pre == 1) s = "0" + s; if (v < 0) s = "-" + s; else if (pre == 2) s = "+" + s; int_token(c, b, s, n); }
            c.note(string(n) + " chunk " + to_string(chunk));
        };
        switch (c.choose(5, "type")) { case 0: go((signed char)0, "signed char"); break; case 1: go((unsigned char)0, "unsigned char"); break; case 2: go((short)0, "short"); break; case 3: go((unsigned short)0, "unsigned short"); break; case 4: go((int)0, "int"); break; }
    }});

static Reg c2d({"C02", "bool-char", "every token over {0,1,2,+,-,t,r,u,e,blank} up to the bound plus the literal families for bool; every 1-byte and 2-byte token for char; literals with each single character changed, dropped or doubled",
    {3, 5}, {5, 6}, [](Ctx& c) {
        unsigned kind = c.choose(3, "kind");
        if (kind == 0 || kind == 1) {
            string t;
            if (kind == 0) t = pick(c, "012+-true ", c.bound(), 1);
            else {
                static const char* lits[] = {"true", "false", "1", "0", "+1", "+0", "-0", "-1", "01", "00", "18446744073709551617", "18446744073709551616", "9223372036854775808", "-9223372036854775808", "4294967297", "257", "256", "65536", "65537", "4294967296"};
                string l = lits[c.choose(20)]; unsigned m = c.choose(5, "mutation"); size_t p = m ? c.choose(l.size(), "position") : 0;
                if (m == 1) l.erase(p, 1); else if (m == 2) l.insert(p, 1, l[p]); else if (m == 3) l[p] = char(isalpha(l[p]) ? toupper(l[p]) : '3'); else if (m == 4) l.insert(p, " ");
                t = l;
                if (t.empty()) { c.prune(); return; }
            }
            c.note("bool " + show(t));
            TBed<bool> b; __int128 v; bool ok, val = false;
            if (t == "true") ok = val = true; else if (t == "false") ok = true;
            else { ok = ref_int(t, true, dec(numeric_limits<long long>::max()), "9223372036854775808", v) && (v == 0 || v == 1); val = ok && v == 1; }
            b.s->Feed("c " + quote(t, '\'')); c.step(); c.state(hs(t));
            if (ok ? (b.calls.size() != 1 || b.wrong || b.calls[0] != val) : (!b.calls.empty() || b.wrong != 1))
                c.fail("bool token " + show(t) + (ok ? " must be accepted" : " must be refused") + "; handler ran " + to_string(b.calls.size()) + " times, wrong command " + to_string(b.wrong));
        } else {
            string t(1, (char)c.choose(256));
            unsigned second = c.choose(9); if (second) t += "ab0 \"'\\\t"[second - 1];
            c.note("char " + show(t));
            TBed<char> b; b.s->Feed("c " + quote(t, '"')); c.step(); c.state(hs(t));
            bool ok = t.size() == 1;
            if (ok ? (b.calls.size() != 1 || b.wrong || b.calls[0] != t[0]) : (!b.calls.empty() || b.wrong != 1))
                c.fail("char token " + show(t) + (ok ? " must be accepted" : " must be refused") + "; handler ran " + to_string(b.calls.size()) + " times, wrong command " + to_string(b.wrong));
        }
    }});

static Reg c2f({"C02", "long-tokens", "for the 10 integer types and bool, tokens with n zeros in front (n around the powers of two up to the bound) of a limit or a small value, n times the same digit, and n zeros behind, with and without sign",
    {0}, {1}, [](Ctx& c) {
        size_t n = size_choice(c);
        auto go = [&](auto z, const char* nm) { using T = decltype(z); using L = numeric_limits<T>; __int128 mx = L::max(), mn = L::min(); static const char* sg[] = {"", "+", "-"}; string t = sg[c.choose(3, "sign")];
            unsigned k = c.choose(9, "digits"); if (k < 6) { __int128 b[] = {mx, mx + 1, -mn, -mn + 1, 0, 7}; t += string(n, '0') + dec(b[k]); } else if (k == 6) t += string(n, '9'); else if (k == 7) t += "1" + string(n, '0'); else t += string(n, '0') + "x";
            TBed<T> b; int_token(c, b, t, nm); };
        with_int_type(c, go);
    }});

static Reg c2e({"C02", "mixed-parameters", "commands with several parameters: every combination of good and bad tokens per position; the handler runs exactly when every token is good, with the values in order",
    {1}, {1}, [](Ctx& c) {
        static const pair<const char*, bool> ti[] = {{"7", true}, {"-7", true}, {"x", false}, {"2147483648", false}};
        static const pair<const char*, bool> tu[] = {{"7", true}, {"-7", false}, {"65536", false}, {"65535", true}};
        static const pair<const char*, bool> tb[] = {{"true", true}, {"0", true}, {"2", false}, {"True", false}};
        static const pair<const char*, bool> tc[] = {{"x", true}, {"7", true}, {"ab", false}};
        static const pair<const char*, bool> tl[] = {{"-9223372036854775808", true}, {"9223372036854775808", false}, {"0", true}};
        auto a = ti[c.choose(4)], b = tu[c.choose(4)], d = tb[c.choose(4)], e = tc[c.choose(3)], f = tl[c.choose(3)];
        unsigned n = c.choose(7, "token count");
        ostringstream out, log; int wrong = 0;
        auto root = make_unique<cli::Menu>("r");
        root->Insert("c", [&](ostream&, int i, unsigned short u, bool bb, char cc, long l) { log << i << ' ' << u << ' ' << bb << ' ' << cc << ' ' << l << ';'; });
        cli::Cli k(move(root)); k.WrongCommandHandler([&](ostream&, const string&) { ++wrong; });
        cli::CliSession s(k, out, 2);
        vector<string> toks = {a.first, b.first, d.first, e.first, f.first, "9"};
        string line = "c"; for (unsigned i = 0; i < n; ++i) line += " " + toks[i];
        c.note(line);
        s.Feed(line); c.step(); c.state(hs(line));
        bool ok = n == 5 && a.second && b.second && d.second && e.second && f.second;
        ostringstream ex; if (ok) ex << atoi(a.first) << ' ' << atoi(b.first) << ' ' << (string(d.first) == "true") << ' ' << e.first << ' ' << f.first << ';';
        if (log.str() != ex.str() || wrong != (ok ? 0 : 1)) c.fail("line " + show(line) + ": handler log " + show(log.str()) + " expected " + show(ex.str()) + ", wrong command " + to_string(wrong));
    }});

// ---------------------------------------------------------------- C03
template <class T> struct FF;
template <> struct FF<float> { static float conv(const char* s, char** e) { return strtof(s, e); } static const char* n() { return "float"; } };
template <> struct FF<double> { static double conv(const char* s, char** e) { return strtod(s, e); } static const char* n() { return "double"; } };
template <> struct FF<long double> { static long double conv(const char* s, char** e) { return strtold(s, e); } static const char* n() { return "long double"; } };

template <class T> static void float_token(Ctx& c, const string& t)
{
    bool ok = true; T v = 0;
    for (unsigned char ch : t) if (isspace(ch)) ok = false;
    if (ok) { errno = 0; char* e; v = FF<T>::conv(t.c_str(), &e); if (errno == ERANGE || e == t.c_str() || e != t.c_str() + t.size()) ok = false; errno = 0; }
    TBed<T> b; b.s->Feed("c " + quote(t, '"')); c.step(); c.state(hs(t));
    auto same = [](T x, T y) { return (x != x && y != y) || (x == y && signbit(x) == signbit(y)); };
    if (ok ? (b.calls.size() != 1 || b.wrong || !same(b.calls[0], v)) : (!b.calls.empty() || b.wrong != 1)) {
        ostringstream o; if (!b.calls.empty()) o << " value " << b.calls[0];
        c.fail(string(FF<T>::n()) + " token " + show(t) + (ok ? " must be accepted" : " must be refused") + "; handler ran " + to_string(b.calls.size()) + " times" + o.str() + ", wrong command " + to_string(b.wrong));
    }
}
static void float_any(Ctx& c, const string& t) { switch (c.choose(3, "type")) { case 0: float_token<float>(c, t); break; case 1: float_token<double>(c, t); break; case 2: float_token<long double>(c, t); break; } }

static Reg c3a({"C03", "float-short", "every token over {1,0,.,e,-,+,x,blank} up to the bound for float, double, long double",
    {3, 5}, {5, 6}, [](Ctx& c) { string t = pick(c, "10.e-+x ", c.bound(), 1); c.note(show(t)); float_any(c, t); }});

static Reg c3l({"C03", "float-long", "tokens of n digits (n around the powers of two up to the bound): zeros in front, nines, a fraction of n digits, a large number with its inverse exponent; strings of n characters",
    {0}, {1}, [](Ctx& c) {
        size_t n = size_choice(c); string t;
        switch (c.choose(8, "shape")) {
            case 0: t = string(n, '0') + "1.5"; break; case 1: t = string(n, '9'); break; case 2: t = "0." + string(n, '0') + "1"; break; case 3: t = "1" + string(n, '0') + "e-" + to_string(n); break;
            case 4: t = "3." + string(n, '3'); break; case 5: t = "1e" + string(n, '0') + "1"; break; case 6: t = "0." + string(n, '0') + "1e" + to_string(n); break; default: t = "3." + string(n, '3') + "x"; break;
        }
        if (c.choose(2, "sign")) t = "-" + t; float_any(c, t); if (c.failed()) return;
        ostringstream out; vector<string> got; auto root = make_unique<cli::Menu>("r"); root->Insert("c", [&](ostream&, const string& v, string w) { got.push_back(v); got.push_back(w); });
        cli::Cli k(move(root)); cli::CliSession s(k, out, 2); s.Feed("c " + t + " '" + t + " b'"); if (got != vector<string>{t, t + " b"}) c.fail("a string of " + to_string(t.size()) + " characters does not arrive unchanged");
    }});

static Reg c3b({"C03", "float-families", "exponents around every range limit, hexadecimal floats, inf/nan words, trailing and leading text",
    {1}, {1}, [](Ctx& c) {
        string t;
        switch (c.choose(3, "family")) {
            case 0: {
                static const char* m[] = {"1", "0", "3.4028234", "3.4028236", "1.7976931348623157", "1.7976931348623159", "1.1897314953572317650", "4.9", "1.17549435", "2.2250738585072014", "0.1", ".5", "5."};
                static const int es[] = {0, 1, -1, 37, 38, 39, -37, -38, -39, -44, -45, -46, 307, 308, 309, -307, -308, -323, -324, -325, 4931, 4932, 4933, -4931, -4932, -4950, -4951, -4952};
                static const char* sg[] = {"", "-", "+"};
                t = string(sg[c.choose(3)]) + m[c.choose(13)] + "e" + to_string(es[c.choose(28)]); break;
            }
            case 1: {
                static const char* w[] = {"inf", "-inf", "nan", "infinity", "INF", "NaN", "nan(1)", "0x1p3", "0x.8", "0x", "0x1p", "1e", "1e+", "e1", ".", "-", "+", "1..2", "1.2.3", "--1", "1f", "1d", "1,5", "1_0", "0x1.8p-1", "infx", "in", "na", "00012", "+-1", "1e5.5", "1E5", "0b1"};
                t = w[c.choose(33)]; break;
            }
            case 2: {
                static const char* w[] = {"1.5", "-2e3", "inf", "0"}; static const char* p[] = {"", " ", "\t", "\n", "a", "x", "\r", "\v", "\f"}; 
                t = p[c.choose(9)]; t += w[c.choose(4)]; t += p[c.choose(9)]; break;
            }
        }
        c.note(show(t)); float_any(c, t);
    }});

static Reg c3c({"C03", "string", "a string parameter receives every non-empty token over {a, blank, \", ', \\, !, newline, 0x80, 0xff, NUL} up to the bound unchanged, by value and by const reference, first or second",
    {2, 3}, {3, 4}, [](Ctx& c) {
        string t = pick(c, string("a \"'\\!\n\x80\xff\0", 10), c.bound(), 1);
        ostringstream out; vector<string> got; int wrong = 0;
        auto root = make_unique<cli::Menu>("r");
        unsigned k = c.choose(3);
        if (k == 0) root->Insert("c", [&](ostream&, const string& a) { got = {a}; });
        else if (k == 1) root->Insert("c", [&](ostream&, string a) { got = {a}; });
        else root->Insert("c", [&](ostream&, int i, const string& a) { got = {a, to_string(i)}; });
        cli::Cli cl(move(root)); cl.WrongCommandHandler([&](ostream&, const string&) { ++wrong; });
        cli::CliSession s(cl, out, 2);
        s.Feed((k == 2 ? "c 5 " : "c ") + quote(t, c.choose(2) ? '\'' : '"')); c.step(); c.state(hs(t)); c.note(show(t));
        vector<string> e = {t}; if (k == 2) e.push_back("5");
        if (got != e || wrong) c.fail("string token " + show(t) + " received as " + showv(got));
    }});

struct Pt { int x = 0, y = 0; };
static istream& operator>>(istream& i, Pt& p) { char s = 0; if (i >> p.x >> s >> p.y && s != ',') i.setstate(ios::failbit); return i; }
struct Wd { string w; };
static istream& operator>>(istream& i, Wd& w) { return i >> w.w; }
struct One { char c = 0; };
static istream& operator>>(istream& i, One& w) { int x = i.get(); if (x != EOF) w.c = (char)x; return i; }
struct All { string s; };       // takes everything, ends at eof with failbit cleared
static istream& operator>>(istream& i, All& w) { int x; while ((x = i.get()) != EOF) w.s += (char)x; i.clear(ios::eofbit); return i; }
struct Never {};
static istream& operator>>(istream& i, Never&) { i.setstate(ios::failbit); return i; }
struct Thrower {};
static istream& operator>>(istream& i, Thrower&) { string w; i >> w; if (w.find('a') != string::npos) i.setstate(ios::badbit); return i; }

// number parsing as istream does for the small alphabet used here
static bool p_ws(const string& s, size_t& i) { while (i < s.size() && isspace((unsigned char)s[i])) ++i; return i < s.size(); }
static bool p_int(const string& s, size_t& i, int& v)
{
    p_ws(s, i); bool n = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) n = s[i++] == '-';
    size_t b = i; long long x = 0; while (i < s.size() && isdigit((unsigned char)s[i])) x = x * 10 + (s[i++] - '0');
    if (b == i) return false;
    v = (int)(n ? -x : x); return true;
}
namespace cli { template <> struct TypeDesc<Pt> { static const char* Name() { return "<pt>"; } }; }

static Reg c3d({"C03", "user-types", "user-defined types read with operator>> (pair, word, one character, everything, always failing, bad stream) on every token over {1, a, comma, -, blank} up to the bound",
    {4, 6, 7}, {6, 7, 8}, [](Ctx& c) {
        string t = pick(c, "1a,- ", c.bound(), 1);
        unsigned k = c.choose(6, "type");
        ostringstream out; string got; int n = 0, wrong = 0;
        auto root = make_unique<cli::Menu>("r");
        switch (k) {
            case 0: root->Insert("c", [&](ostream&, Pt p) { ++n; got = to_string(p.x) + ";" + to_string(p.y); }); break;
            case 1: root->Insert("c", [&](ostream&, const Wd& p) { ++n; got = p.w; }); break;
            case 2: root->Insert("c", [&](ostream&, One p) { ++n; got = string(1, p.c); }); break;
            case 3: root->Insert("c", [&](ostream&, All p) { ++n; got = p.s; }); break;
            case 4: root->Insert("c", [&](ostream&, Never) { ++n; }); break;
            case 5: root->Insert("c", [&](ostream&, Thrower) { ++n; }); break;
        }
        cli::Cli cl(move(root)); cl.WrongCommandHandler([&](ostream&, const string&) { ++wrong; });
        cli::CliSession s(cl, out, 2);
        bool ok = false; string ev; size_t i = 0;
        switch (k) {
            case 0: { int x, y; if (p_int(t, i, x) && p_ws(t, i) && t[i] == ',' && (++i, p_int(t, i, y))) { ok = !p_ws(t, i); ev = to_string(x) + ";" + to_string(y); } break; }
            case 1: case 5: { if (p_ws(t, i)) { size_t b = i; while (i < t.size() && !isspace((unsigned char)t[i])) ++i; ev = t.substr(b, i - b); ok = !p_ws(t, i); } if (k == 5) { if (ev.find('a') != string::npos) ok = false; ev = ""; } break; }
            case 2: i = 1; ok = !p_ws(t, i); ev = t.substr(0, 1); break;
            case 3: ok = true; ev = t; break;
        }
        c.note(to_string(k) + " " + show(t) + (ok ? " accepted " : " refused"));
        s.Feed("c " + quote(t, '"')); c.step(); c.state(mix(hs(t), k));
        if (ok ? (n != 1 || wrong || got != ev) : (n || wrong != 1)) c.fail("user type " + to_string(k) + " token " + show(t) + (ok ? " must be accepted" : " must be refused") + ": handler ran " + to_string(n) + " times with " + show(got) + ", wrong command " + to_string(wrong));
    }});
