// C04 dispatch, C05 navigation, C06 enable/disable/remove, C07 help, C08 completions, C16 exceptions
#include "mc.h"
#include "rig.h"
#include "nested_model.h"
#include <cli/clifilesession.h>
#include <exception>
#include <ios>
#include <system_error>
#include <typeinfo>

using namespace std;
using namespace mc;
using namespace tree;

struct Sess {
    ostringstream out; unique_ptr<cli::CliSession> s;
    Sess(World& w, size_t hist = 5) { s = make_unique<cli::CliSession>(*w.cli, out, hist); w.expect_out = &out; }
    string prompt() { string o = out.str(); out.str(""); s->Prompt(); string p = out.str(); out.str(""); out << o; return p; }
    string feed(const string& l) { out.str(""); s->Feed(l); string r = out.str(); return r; }
};
static string prompt_of(const World& w, int m) { return (w.n[m].name.empty() ? "" : w.n[m].prompt) + "> "; }

// feeds one line and compares with the model; cur is updated
static bool feed_check(Ctx& c, World& w, Sess& s, int& cur, const vector<string>& t, bool customWrong, const string& ctxt = "")
{
    string line = join(t);
    w.log.clear(); w.wrong.clear(); w.bad_out = false;
    string o = s.feed(line);
    c.step();
    vector<string> elog, ewrong; int ecur = cur; string eout; bool checkout = true;
    if (World::builtin(t)) { checkout = false; }
    else {
        auto r = w.resolve(cur, t);
        if (r.what == World::Res::CALL) elog.push_back(r.call);
        else if (r.what == World::Res::NAV) ecur = r.id;
        else if (customWrong) ewrong.push_back(line);
        else eout = "wrong command: " + line + "\n";
    }
    string p = s.prompt();
    string where = " [tree " + w.dump() + ", in menu #" + to_string(cur) + ctxt + "]";
    if (w.log != elog) { c.fail("line " + show(line) + ": handlers run " + showv(w.log) + ", expected " + showv(elog) + where); return false; }
    if (w.wrong != ewrong) { c.fail("line " + show(line) + ": wrong-command reports " + showv(w.wrong) + ", expected " + showv(ewrong) + where); return false; }
    if (w.bad_out) { c.fail("line " + show(line) + ": handler did not receive the session's stream" + where); return false; }
    if (checkout && o != eout) { c.fail("line " + show(line) + ": output " + show(o) + ", expected " + show(eout) + where); return false; }
    if (p != prompt_of(w, ecur)) { c.fail("after line " + show(line) + ": prompt " + show(p) + ", expected " + show(prompt_of(w, ecur)) + where); return false; }
    c.state(mix(hs(line), mix(hs(w.dump()), cur)));
    cur = ecur;
    return true;
}
static bool go(Ctx& c, World& w, Sess& s, int& cur, int target, bool cw)
{
    if (target == 0) return true;
    return feed_check(c, w, s, cur, w.path(target), cw);
}

// enumerates all token lists of length 1..n over alpha
template <class F> static void lines(const vector<string>& alpha, int n, F f)
{
    vector<int> ix; vector<string> t;
    for (int len = 1; len <= n; ++len) {
        ix.assign(len, 0); t.assign(len, alpha[0]);
        for (;;) {
            for (int i = 0; i < len; ++i) t[i] = alpha[ix[i]];
            if (!f(t)) return;
            int i = len - 1; while (i >= 0 && ++ix[i] == (int)alpha.size()) ix[i--] = 0;
            if (i < 0) break;
        }
    }
}

// ---------------------------------------------------------------- C04
static void sub_entry(Ctx& c, World& w, int m)
{
    switch (c.choose(7, "sub entry")) {
        case 0: w.add(m, NOARG, "a"); break;
        case 1: w.add(m, INT, "b"); break;
        case 2: { int k = w.add(m, MENU, "t"); w.add(k, NOARG, "a"); w.add(k, FREE, "b"); break; }
        case 3: w.add(m, FREEVAL, "s"); break;
        case 4: { int k = w.add(m, MENU, "a"); w.add(k, STR, "b"); break; }
        case 5: { int k = w.add(m, MENU, "r"); w.add(k, INT, "a"); break; }
        case 6: w.add(m, NOARG, "r"); break;
    }
}
static void root_entry(Ctx& c, World& w, int subs)
{
    auto sub = [&](const char* nm) { int m = w.add(0, MENU, nm); unsigned k = 1 + c.choose(subs, "sub entries"); for (unsigned i = 0; i < k; ++i) sub_entry(c, w, m); };
    switch (c.choose(11, "root entry")) {
        case 0: w.add(0, NOARG, "a"); break;
        case 1: sub("s"); break;
        case 2: w.add(0, INT, "a"); break;
        case 3: w.add(0, STR, "a"); break;
        case 4: w.add(0, FREE, "a"); break;
        case 5: w.add(0, NOARG, "b"); break;
        case 6: sub("a"); break;
        case 7: w.add(0, STR, "help"); break;
        case 8: w.add(0, NOARG, "r"); break;
        case 9: w.add(0, INT2, "a"); break;
        case 10: for (auto& x : w.n) if (x.kind == FPTR) { c.prune(); return; } w.add(0, FPTR, "b"); break;
    }
}
static void all_lines(Ctx& c, World& w, const vector<string>& alpha, int len, bool cw)
{
    for (int m : w.menus()) {
        unique_ptr<Sess> s; int cur = 0; int budget = 0;
        lines(alpha, len, [&](const vector<string>& t) {
            if (!s || cur != m || ++budget > 400) { s.reset(new Sess(w)); cur = 0; budget = 0; if (!go(c, w, *s, cur, m, cw)) return false; if (cur != m) return false; }
            return feed_check(c, w, *s, cur, t, cw);
        });
        if (c.failed()) return;
    }
}
static Reg d1({"C04", "trees", "every tree with up to the bound root entries (11 kinds, submenus with 1-2 of 7 kinds of entries), every current menu, every line of up to 3 tokens over {a,b,s,t,r,..,1,help}, each compared with the reference resolution (handler, arguments, stream, wrong-command report, prompt)",
    {1, 2}, {1, 2}, [](Ctx& c) {
        World w; w.add(-1, MENU, "r");
        for (int i = 0; i < c.bound(); ++i) root_entry(c, w, c.bound() == 1 ? 2 : 1);
        w.build(); w.custom_wrong();
        c.note(w.dump());
        all_lines(c, w, {"a", "b", "s", "t", "r", "..", "1", "help"}, 3, true);
    }});
static Reg d1b({"C04", "trees-deep", "as trees, but lines of up to the bound tokens, submenus with two entries",
    {}, {4}, [](Ctx& c) {
        World w; w.add(-1, MENU, "r");
        for (int i = 0; i < 2; ++i) root_entry(c, w, 2);
        w.build(); w.custom_wrong();
        c.note(w.dump());
        all_lines(c, w, {"a", "b", "s", "t", "r", "..", "1"}, c.bound(), true);
    }});

// overloads: every ordered selection of command kinds with the same name, in the root or in a submenu or split between menu and parent
static Reg d2({"C04", "overloads", "every ordered selection of up to the bound commands of all 8 parameter kinds under one name, placed in the root, a submenu or both; every argument list of up to 3 over {1,-2,x,xy,a}; default and custom wrong-command handler",
    {2, 3}, {3, 4}, [](Ctx& c) {
        World w; w.add(-1, MENU, "r"); int m = w.add(0, MENU, "s");
        static const Kind ks[] = {NOARG, INT, STR, FREE, INT2, FPTR, CHR};
        unsigned place = c.choose(3, "placement");
        bool fp = false;
        for (int i = 0; i < c.bound(); ++i) { Kind k = ks[c.choose(7, "kind")]; if (k == FPTR) { if (fp) { c.prune(); return; } fp = true; } w.add(place == 0 ? 0 : place == 1 ? m : (i % 2 ? 0 : m), k, "a"); }
        bool cw = c.choose(2, "custom wrong handler");
        w.build(); if (cw) w.custom_wrong();
        c.note(w.dump());
        vector<string> args = {"1", "-2", "x", "xy", "a"};
        for (int start : {0, m}) {
            Sess s(w); int cur = 0; if (!go(c, w, s, cur, start, cw)) return;
            for (const char* pre : {"", "s", "..", "r", ".. s", "s .."}) {
                vector<string> base; { istringstream is(pre); string x; while (is >> x) base.push_back(x); }
                base.push_back("a");
                if (cur != start) { c.fail("navigation by a command line"); return; }
                if (!feed_check(c, w, s, cur, base, cw)) return;
                lines(args, 3, [&](const vector<string>& t) { auto l = base; l.insert(l.end(), t.begin(), t.end()); return feed_check(c, w, s, cur, l, cw); });
                if (c.failed()) return;
            }
        }
    }});

// raw lines: spacing, quoting and blanks do not change what runs; blank lines do nothing; original line is reported
static Reg d3({"C04", "raw-lines", "every raw line over {a, blank, tab, \", s, ., 1} up to the bound on a fixed tree: the handler of the tokenized line runs, blank lines do nothing, the wrong-command report carries the original line",
    {4, 5}, {5, 6, 7}, [](Ctx& c) {
        World w; w.add(-1, MENU, "r"); w.add(0, NOARG, "a"); int m = w.add(0, MENU, "s"); w.add(m, FREE, "a"); w.add(0, INT, "aa");
        w.build(); bool cw = c.choose(2); if (cw) w.custom_wrong();
        string l; for (int i = 0; i < c.bound(); ++i) { unsigned k = c.choose(8); if (!k) break; l += "a \t\"s.1"[k - 1]; }
        vector<string> t; { string tok; bool q = false, in = false; for (char ch : l) { if (q) { if (ch == '"') { q = false; in = false; if (!tok.empty()) t.push_back(tok); tok.clear(); } else tok += ch; } else if (ch == '"') { if (in && !tok.empty()) t.push_back(tok); tok.clear(); q = true; in = true; } else if (ch == ' ' || ch == '\t') { if (!tok.empty()) t.push_back(tok); tok.clear(); in = false; } else { tok += ch; in = true; } } if (!tok.empty()) t.push_back(tok); }
        Sess s(w); int cur = 0;
        string o = s.feed(l); c.step(); c.state(hs(l)); c.note(show(l) + " tokens " + showv(t));
        vector<string> elog, ew; string eo; int ecur = 0;
        if (!t.empty()) { auto r = w.resolve(cur, t); if (r.what == World::Res::CALL) elog = {r.call}; else if (r.what == World::Res::NAV) ecur = r.id; else if (cw) ew = {l}; else eo = "wrong command: " + l + "\n"; }
        if (w.log != elog || w.wrong != ew || o != eo || s.prompt() != prompt_of(w, ecur)) c.fail("raw line " + show(l) + ": handlers " + showv(w.log) + " expected " + showv(elog) + ", wrong " + showv(w.wrong) + ", output " + show(o) + " expected " + show(eo) + ", prompt " + show(s.prompt()));
    }});

// a user-defined Command class
struct Custom : cli::Command {
    vector<vector<string>>* seen; bool accept;
    Custom(const string& n, vector<vector<string>>* s, bool a) : Command(n), seen(s), accept(a) {}
    bool Exec(const vector<string>& l, cli::CliSession&) override { if (!IsEnabled()) return false; if (l[0] != Name()) return false; seen->push_back(l); return accept; }
    void Help(ostream& o) const override { o << " - " << Name() << "\n\tcustom\n"; }
};
static Reg d4({"C04", "custom-commands", "user-defined Command objects that accept or decline, in every position relative to ordinary commands: declined lines continue with the next entry, accepted ones stop",
    {3, 4}, {4}, [](Ctx& c) {
        auto root = make_unique<cli::Menu>("r"); vector<vector<string>> seen; vector<string> log; int wrong = 0;
        vector<string> elog; size_t eseen = 0; bool done = false;
        unsigned argc = c.choose(3, "args");
        for (int i = 0; i < c.bound(); ++i) {
            unsigned k = c.choose(5, "entry");
            bool match = false; 
            if (k == 0) { root->Insert(make_unique<Custom>("a", &seen, true)); match = true; if (!done) ++eseen; }
            else if (k == 1) { root->Insert(make_unique<Custom>("a", &seen, false)); if (!done) ++eseen; }
            else if (k == 2) { root->Insert("a", [&log, i](ostream&) { log.push_back(to_string(i)); }); match = argc == 0; if (match && !done) elog.push_back(to_string(i)); }
            else if (k == 3) { root->Insert("a", [&log, i](ostream&, const string&) { log.push_back(to_string(i)); }); match = argc == 1; if (match && !done) elog.push_back(to_string(i)); }
            else { root->Insert(make_unique<Custom>("b", &seen, true)); }
            if (match) done = true;
        }
        cli::Cli cl(move(root)); cl.WrongCommandHandler([&](ostream&, const string&) { ++wrong; });
        ostringstream o; cli::CliSession s(cl, o);
        string l = "a"; for (unsigned i = 0; i < argc; ++i) l += " x";
        s.Feed(l); c.step(); c.state(hs(l, elog.size() * 100 + eseen)); c.note(l + " expects " + showv(elog) + " custom calls " + to_string(eseen));
        vector<string> es = {"a"}; for (unsigned i = 0; i < argc; ++i) es.push_back("x");
        bool okseen = seen.size() == eseen; for (auto& x : seen) if (x != es) okseen = false;
        if (log != elog || !okseen || wrong != (done ? 0 : 1)) c.fail("line " + l + ": handlers " + showv(log) + " expected " + showv(elog) + ", custom commands " + to_string(seen.size()) + " expected " + to_string(eseen) + ", wrong " + to_string(wrong));
    }});

// ---------------------------------------------------------------- C05
static void nav_tree(World& w, unsigned k)
{
    w.add(-1, MENU, k == 3 ? "" : "r");
    switch (k) {
        case 0: { int s = w.add(0, MENU, "s"); int t = w.add(s, MENU, "t"); w.add(t, NOARG, "c"); w.add(s, NOARG, "c"); w.add(0, NOARG, "c"); w.add(0, MENU, "u"); break; }
        case 1: { int s = w.add(0, MENU, "s"); int t = w.add(s, MENU, "s"); int u = w.add(t, MENU, "r"); w.add(u, NOARG, "c"); w.add(0, NOARG, "u"); w.add(0, NOARG, "c"); break; }   // child named like its parent / the root
        case 2: { int s = w.add(0, MENU, "s"); w.add(s, NOARG, "u"); w.add(s, MENU, "u"); w.add(0, NOARG, "s"); int s2 = w.add(0, MENU, "s"); w.add(s2, MENU, "t"); w.add(s2, NOARG, "c"); break; }   // duplicated names
        case 3: { int s = w.add(0, MENU, "s"); int t = w.add(s, MENU, "t"); w.add(t, NOARG, "c"); w.add(0, FREE, "c"); w.add(0, MENU, "u"); break; }  // unnamed root
        case 4: { int s = w.add(0, MENU, "s"); int t = w.add(s, MENU, "t"); int u = w.add(t, MENU, "u"); int c = w.add(u, MENU, "c"); w.add(c, NOARG, "r"); break; }
    }
}
static const vector<string> NAVT = {"s", "t", "u", "c", "r", "..", "x"};
static Reg n1({"C05", "every-line-everywhere", "5 trees (depth 4, duplicated names, a child named like its parent or the root, unnamed root), every current menu, every line up to the bound tokens over {s,t,u,c,r,..,x}",
    {4, 5}, {5}, [](Ctx& c) {
        World w; nav_tree(w, c.choose(5, "tree")); w.build(); w.custom_wrong();
        c.note(w.dump());
        vector<string> first = {NAVT[c.choose(7, "first token")]};
        auto ms = w.menus(); int m = ms[c.choose(ms.size(), "menu")];
        // reachable by its path from the root?
        unique_ptr<Sess> s; int cur = 0, budget = 0;
        auto one = [&](const vector<string>& t) {
            if (!s || cur != m || ++budget > 300) { s.reset(new Sess(w)); cur = 0; budget = 0; if (!go(c, w, *s, cur, m, true) || cur != m) return false; }
            auto l = first; l.insert(l.end(), t.begin(), t.end());
            return feed_check(c, w, *s, cur, l, true);
        };
        if (one({})) lines(NAVT, c.bound() - 1, one);
    }});
static Reg n2({"C05", "line-sequences", "every sequence of up to the bound lines (all lines of 1-2 tokens plus wrong commands, built-ins and failing commands) from a fresh session, prompt and probe command checked after each",
    {2, 3}, {3, 4}, [](Ctx& c) {
        World w; nav_tree(w, c.choose(5, "tree")); w.on_call = nullptr; w.build(); w.custom_wrong();
        Sess s(w); int cur = 0;
        string tr;
        if (s.prompt() != prompt_of(w, 0)) { c.fail("a session does not start in the root menu: prompt " + show(s.prompt())); return; }
        for (int i = 0; i < c.bound(); ++i) {
            unsigned k = c.choose(7 + 49 + 2, "line");
            vector<string> t;
            if (k < 7) t = {NAVT[k]}; else if (k < 56) t = {NAVT[(k - 7) / 7], NAVT[(k - 7) % 7]}; else if (k == 56) t = {"help"}; else t = {"history"};
            tr += join(t) + "; ";
            if (!feed_check(c, w, s, cur, t, true, ", after " + tr)) return;
            if (!feed_check(c, w, s, cur, {"c"}, true, ", probe after " + tr)) return;   // may itself navigate when c is a menu
        }
        c.note(w.dump() + ": " + tr);
    }});
static Reg n3({"C05", "prompts", "prompt text: default (the name) and custom, empty names, every menu of a chain",
    {1}, {1}, [](Ctx& c) {
        auto p1 = c.choose(4), p2 = c.choose(4), p3 = c.choose(4);
        static const char* pr[] = {"", "prompt", "a b", "#"};
        auto root = make_unique<cli::Menu>("root", "d", pr[p1]);
        auto s = make_unique<cli::Menu>("s", "d", pr[p2]); auto t = make_unique<cli::Menu>("t", "d", pr[p3]);
        s->Insert(move(t)); root->Insert(move(s));
        cli::Cli cl(move(root)); ostringstream o; cli::CliSession se(cl, o);
        auto want = [&](unsigned p, const char* n) { string x = pr[p]; return (x.empty() ? string(n) : x) + "> "; };
        auto got = [&] { o.str(""); se.Prompt(); return o.str(); };
        string a = got(); se.Feed("s"); string b = got(); se.Feed("t"); string d = got(); se.Feed(".."); string e = got(); se.Feed("root"); string f = got();
        c.step(5); c.state(p1 * 16 + p2 * 4 + p3); c.note(a + b + d + e + f);
        if (a != want(p1, "root") || b != want(p2, "s") || d != want(p3, "t") || e != b || f != a) c.fail("prompts " + showv(vector<string>{a, b, d, e, f}));
    }});

// ---------------------------------------------------------------- C07 / C08 helpers
static bool help_check(Ctx& c, World& w, Sess& s, int cur, const string& why = "")
{
    string o = s.feed("help"); c.step();
    auto h = parse_help(o);
    vector<string> names; for (size_t i = 0; i < min<size_t>(4, h.size()); ++i) names.push_back(h[i].substr(0, h[i].find('|')));
    bool bi = h.size() >= 4 && names[0] == "help" && names[1] == "exit" && names[2] == "history" && names[3].compare(0, 1, "!") == 0;
    vector<string> rest(h.begin() + min<size_t>(4, h.size()), h.end());
    auto e = w.help(cur);
    c.state(mix(hs(showv(e)), cur));
    if (!bi) { c.fail("help does not start with the four built-in commands: " + showv(h) + " [tree " + w.dump() + " in #" + to_string(cur) + why + "]"); return false; }
    if (rest != e) { c.fail("help lists " + showv(rest) + ", expected " + showv(e) + " [tree " + w.dump() + " in #" + to_string(cur) + why + "]"); return false; }
    return true;
}
static bool comp_check(Ctx& c, World& w, Sess& s, int cur, const string& line, const string& why = "")
{
    auto g = s.s->GetCompletions(line); c.step();
    auto e = w.completions(cur, line);
    c.state(mix(hs(line), mix(hs(w.dump()), cur)));
    if (g != e) { c.fail("completions of " + show(line) + " are " + showv(g) + ", expected " + showv(e) + " [tree " + w.dump() + " in #" + to_string(cur) + why + "]"); return false; }
    return true;
}

static Reg h1({"C07", "trees", "every tree with up to the bound entries per menu (8 command kinds with type or parameter names, submenus, unnamed root), every enable mask over the entries, every current menu; help compared entry by entry",
    {2, 3, 4}, {3, 4}, [](Ctx& c) {
        World w; w.add(-1, MENU, c.choose(2) ? "" : "r");
        static const Kind ks[] = {NOARG, INT, STR, FREE, INT2, FPTR, CHR, FREEVAL};
        int sub = -1; unsigned fp = 0;
        for (int i = 0; i < c.bound(); ++i) {
            unsigned k = c.choose(9, "entry");
            if (k == 8) { int m = w.add(0, MENU, "s" + to_string(i)); w.add(m, NOARG, "x"); w.add(m, MENU, "y"); if (sub < 0) sub = m; }
            else { if (ks[k] == FPTR && fp++) { c.prune(); return; } int q = w.add(0, ks[k], "k" + to_string(i)); unsigned pd = (k % 3 + i) % 3; for (unsigned j = 0; j < pd; ++j) w.n[q].par.push_back("par" + to_string(j)); }
        }
        w.build(); w.custom_wrong();
        unsigned mask = c.choose(1u << c.bound(), "disabled mask");
        for (int i = 0; i < c.bound(); ++i) if (mask >> i & 1) { int k = w.n[0].kids[i]; w.n[k].enabled = false; w.n[k].h.Disable(); }
        c.note(w.dump());
        Sess s(w); int cur = 0;
        if (!help_check(c, w, s, cur)) return;
        if (!help_check(c, w, s, cur)) return;     // again: printing help changes nothing
        if (s.prompt() != prompt_of(w, 0)) { c.fail("help moved the session"); return; }
        if (sub >= 0 && w.live(sub)) {
            if (!feed_check(c, w, s, cur, {w.n[sub].name}, true)) return;
            if (!help_check(c, w, s, cur)) return;
            int y = w.n[sub].kids[1];
            if (!feed_check(c, w, s, cur, {"y"}, true) || !help_check(c, w, s, cur)) return;
            (void)y;
            if (!feed_check(c, w, s, cur, {".."}, true) || !help_check(c, w, s, cur)) return;
        }
    }});

template <class T> static string tdesc()
{
    auto root = make_unique<cli::Menu>("r"); root->Insert("c", [](ostream&, T) {}, "d");
    cli::Cli cl(move(root)); ostringstream o; cli::CliSession s(cl, o); s.Feed("help");
    auto h = parse_help(o.str()); return h.empty() ? "" : h.back();
}
struct UT { int v; }; static istream& operator>>(istream& i, UT& u) { return i >> u.v; }
namespace cli { template <> struct TypeDesc<UT> { static const char* Name() { return "<my type>"; } }; }
static Reg h2({"C07", "type-names", "the parameter type name shown for every supported parameter type, and for user types with a TypeDesc; all pairs as two-parameter commands",
    {1}, {1}, [](Ctx& c) {
        string g, e;
        switch (c.choose(19, "type")) {
            case 0: g = tdesc<char>(); e = "<char>"; break; case 1: g = tdesc<unsigned char>(); e = "<unsigned char>"; break; case 2: g = tdesc<signed char>(); e = "<signed char>"; break;
            case 3: g = tdesc<short>(); e = "<short>"; break; case 4: g = tdesc<unsigned short>(); e = "<unsigned short>"; break; case 5: g = tdesc<int>(); e = "<int>"; break;
            case 6: g = tdesc<unsigned>(); e = "<unsigned int>"; break; case 7: g = tdesc<long>(); e = "<long>"; break; case 8: g = tdesc<unsigned long>(); e = "<unsigned long>"; break;
            case 9: g = tdesc<long long>(); e = "<long long>"; break; case 10: g = tdesc<unsigned long long>(); e = "<unsigned long long>"; break; case 11: g = tdesc<float>(); e = "<float>"; break;
            case 12: g = tdesc<double>(); e = "<double>"; break; case 13: g = tdesc<long double>(); e = "<long double>"; break; case 14: g = tdesc<bool>(); e = "<bool>"; break;
            case 15: g = tdesc<string>(); e = "<string>"; break; case 16: g = tdesc<const string&>(); e = "<string>"; break; case 17: g = tdesc<UT>(); e = "<my type>"; break; case 18: g = tdesc<const int&>(); e = "<int>"; break;
        }
        c.step(); c.state(hs(g + e)); c.note(g);
        if (g != "c " + e + "|d") c.fail("help shows " + show(g) + " expected " + show("c " + e + "|d"));
    }});

static void comp_tree(World& w, unsigned k)
{
    w.add(-1, MENU, k == 3 ? "" : k == 4 ? "he" : "r");
    switch (k) {
        case 0: { w.add(0, NOARG, "s"); int s = w.add(0, MENU, "st"); w.add(s, NOARG, "s"); w.add(s, INT, "t"); int t = w.add(s, MENU, "tt"); w.add(t, NOARG, "r"); w.add(0, FREE, "str"); w.add(0, NOARG, "stt"); break; }
        case 1: { int s = w.add(0, MENU, "s"); int t = w.add(s, MENU, "s"); int u = w.add(t, MENU, "r"); w.add(u, NOARG, "st"); w.add(s, NOARG, "ss"); w.add(0, NOARG, "s"); w.add(0, NOARG, "s"); break; }
        case 2: { int s = w.add(0, MENU, "s"); w.add(s, NOARG, "t"); int s2 = w.add(0, MENU, "s"); w.add(s2, NOARG, "r"); w.add(0, MENU, "ss"); w.add(0, NOARG, "t.t"); break; }
        case 3: { int s = w.add(0, MENU, "s"); int t = w.add(s, MENU, "t"); w.add(t, NOARG, "s"); w.add(0, FREE, "t"); w.add(s, NOARG, "r"); break; }
        case 4: { int s = w.add(0, MENU, "s"); w.add(s, NOARG, "help"); w.add(0, NOARG, "hel"); w.add(0, MENU, "he"); w.add(0, NOARG, "exit"); break; }
        case 5: { int s = w.add(0, MENU, "s"); int u = w.add(s, MENU, "t"); int v = w.add(u, MENU, "s"); w.add(v, NOARG, "t"); w.add(v, NOARG, "r"); w.add(u, NOARG, "r"); w.add(s, NOARG, "tr"); w.add(0, NOARG, "tt"); break; }
    }
}
static Reg k1({"C08", "lines", "6 trees (prefix-related names, duplicates, unnamed root, names like built-ins, depth 4), every current menu, every line over {s,t,r,.,blank} up to the bound; completions compared with the reference set; execution state unchanged",
    {5, 6, 7}, {6, 7}, [](Ctx& c) {
        World w; unsigned k = c.choose(6, "tree"); comp_tree(w, k); w.build(); w.custom_wrong();
        auto ms = w.menus(); int m = ms[c.choose(ms.size(), "menu")];
        Sess s(w); int cur = 0;
        // the first menu with that path wins; skip menus hidden behind a duplicate
        if (m) { auto r = w.resolve(0, w.path(m)); if (r.what != World::Res::NAV || r.id != m) { c.prune(); return; } }
        if (!go(c, w, s, cur, m, true)) return;
        string alpha = k == 4 ? "help s" : "str. "; 
        string pre; for (int i = 0; i < 2; ++i) { unsigned q = c.choose(alpha.size() + 1, "prefix char"); if (!q) break; pre += alpha[q - 1]; }
        c.note(w.dump() + " in #" + to_string(m) + ", lines starting with " + show(pre));
        if (!comp_check(c, w, s, cur, pre)) return;
        if (pre.size() == 2) {
            int rest = c.bound() - 2;
            vector<int> ix; string l;
            for (int len = 1; len <= rest; ++len) {
                ix.assign(len, 0);
                for (;;) {
                    l = pre; for (int i = 0; i < len; ++i) l += alpha[ix[i]];
                    if (!comp_check(c, w, s, cur, l)) return;
                    int i = len - 1; while (i >= 0 && ++ix[i] == (int)alpha.size()) ix[i--] = 0;
                    if (i < 0) break;
                }
            }
        }
        if (s.prompt() != prompt_of(w, m) || !w.log.empty()) c.fail("asking for completions changed the session or ran a command");
    }});
static Reg k2({"C08", "masks", "4 trees, every enable mask over all their nodes, every current menu reachable before disabling whose ancestors stay enabled, a set of lines covering every menu path with every last word prefix and trailing blanks",
    {1}, {1}, [](Ctx& c) {
        World w; unsigned k = c.choose(4, "tree"); comp_tree(w, k); w.build(); w.custom_wrong();
        auto ms = w.menus(); int m = ms[c.choose(ms.size(), "menu")];
        if (m) { auto r = w.resolve(0, w.path(m)); if (r.what != World::Res::NAV || r.id != m) { c.prune(); return; } }
        Sess s(w); int cur = 0; if (!go(c, w, s, cur, m, true)) return;
        unsigned N = w.n.size() - 1; unsigned mask = c.choose(1u << N, "disabled mask");
        for (unsigned i = 1; i <= N; ++i) if (mask >> (i - 1) & 1) { w.n[i].enabled = false; w.n[i].h.Disable(); }
        for (int x = m; x >= 0; x = w.n[x].parent) if (!w.n[x].enabled) { c.prune(); return; }   // inside a disabled menu: see C06
        c.note(w.dump() + " in #" + to_string(m));
        for (const char* l : {"", "s", "st", "s ", "st ", "s s", "s t", "st t", "st tt", "st tt ", "s s ", "s s r", "..", ".. ", ".. s", "r", "r ", "r s", ".. s ", "s ..", "s .. ", "s .. s", "stt", "t", "ss ", " s", "  s  t", ".. .. ", "s r"})
            if (!comp_check(c, w, s, cur, l)) return;
    }});

// ---------------------------------------------------------------- C06
static void probe(Ctx& c, World& w, Sess& s, int& cur, const string& why)
{
    static const vector<vector<string>> L = {{"a"}, {"b"}, {"s", "a"}, {"s", "t", "a"}, {"s", "t", "b"}, {"s"}, {"..", "b"}, {"s", "a", "1"}, {"s", "t"}, {"b", "1"}};
    for (auto& t : L) {
        int before = cur;
        if (!feed_check(c, w, s, cur, t, true, why)) return;
        if (cur != before) {            // a navigation: look around and come back with a new session
            if (!help_check(c, w, s, cur, why)) return;
            for (const char* l : {"", "a", "..", ".. "}) if (!comp_check(c, w, s, cur, l, why)) return;
            // go back up
            while (cur != before) { int up = w.n[cur].parent; if (up < 0 || !w.live(up) || !w.live(cur)) break; w.expect_out = &s.out; if (!feed_check(c, w, s, cur, {".."}, true, why)) return; if (cur != up) break; }
            if (cur != before) return;
        }
        if (c.failed()) return;
    }
    if (!help_check(c, w, s, cur, why)) return;
    for (const char* l : {"", "s", "s ", "s t", "s t ", "s t a", "a", "b"}) if (!comp_check(c, w, s, cur, l, why)) return;
}
static void mark_removed(World& w, int k) { w.n[k].removed = true; for (int x : w.n[k].kids) mark_removed(w, x); }
static const char* opn[] = {"enable", "disable", "remove"};
static void do_op(World& w, int node, unsigned op)
{
    if (op == 0) { w.n[node].h.Enable(); if (!w.n[node].removed) w.n[node].enabled = true; }
    else if (op == 1) { w.n[node].h.Disable(); if (!w.n[node].removed) w.n[node].enabled = false; }
    else { w.n[node].h.Remove(); mark_removed(w, node); }
}
static void handle_tree(World& w) { w.add(-1, MENU, "r"); w.add(0, NOARG, "a"); int s = w.add(0, MENU, "s"); w.add(s, NOARG, "a"); int t = w.add(s, MENU, "t"); w.add(t, NOARG, "a"); w.add(t, NOARG, "b"); w.add(0, INT, "b"); w.add(s, INT, "a"); }

// entries inserted while the Cli is in use, by its owner or by a running handler, mixed with handle operations
static void grow(Ctx& c, bool handles)
{
    World w; w.add(-1, MENU, "r"); int g = w.add(0, NOARG, "g"); int s = w.add(0, MENU, "s"); w.add(s, NOARG, "a"); w.add(s, NOARG, "g");
    w.build(); w.custom_wrong(); Sess se(w); Sess other(w); int cur = 0, ocur = 0; (void)g; string tr;
    if (c.choose(2, "start in the submenu") && !feed_check(c, w, se, cur, {"s"}, true)) return;
    for (int i = 0; i < c.bound(); ++i) {
        auto ms = w.menus(); vector<int> alive; for (int m : ms) { bool ok = true; for (int x = m; x > 0; x = w.n[x].parent) if (w.n[x].removed) ok = false; if (ok) alive.push_back(m); }
        unsigned k = c.choose(handles ? 8 : 5, "operation"); bool inside = c.choose(2, "by a handler"); function<void()> act;
        if (k < 5) {
            int m = alive[c.choose(alive.size(), "menu")]; static const char* N[] = {"a", "a", "a", "s", "g"}; static const Kind K[] = {NOARG, STR, FREE, MENU, NOARG}; tr += string("insert ") + N[k] + " of kind " + to_string(K[k]) + " into #" + to_string(m) + (inside ? " from a handler; " : "; ");
            act = [&w, m, k] { int x = w.add(m, K[k], N[k]); if (K[k] == MENU) w.add(x, NOARG, "a"); w.insert_now(x); };
        } else {
            int x = 1 + c.choose(w.n.size() - 1, "node"); bool built = true; (void)built; tr += string(opn[k - 5]) + " #" + to_string(x) + (inside ? " from a handler; " : "; ");
            act = [&w, x, k] { do_op(w, x, k - 5); };
        }
        if (!inside) act();
        else { // 'g' exists in both menus: its handler acts
            auto r = w.resolve(cur, {"g"}); if (r.what != World::Res::CALL) { c.prune(); return; }
            w.log.clear(); w.wrong.clear(); bool once = true; w.on_call = [&](int) { if (once) { once = false; act(); } }; w.expect_out = &se.out; w.bad_out = false; se.feed("g"); w.on_call = nullptr;
            if (w.log != vector<string>{r.call} || !w.wrong.empty() || w.bad_out) { c.fail(tr + "executing g: handlers " + showv(w.log) + ", wrong command " + showv(w.wrong)); return; }
        }
        c.step(); c.state(hs(w.dump(), cur)); bool here = true; for (int x = cur; x >= 0; x = w.n[x].parent) if (!w.live(x)) here = false;
        if (!here) break;    // inside a disabled or removed menu: another model
        static const vector<vector<string>> L = {{"a"}, {"a", "1"}, {"a", "x", "y"}, {"g"}, {"s", "a"}, {"s", "a", "1"}, {"s", "g"}, {"s", "s", "a"}, {"..", "a"}, {"s", "..", "a"}, {"r", "g"}};
        w.expect_out = &se.out; for (auto& t : L) if (!feed_check(c, w, se, cur, t, true, ", after " + tr)) return;
        if (!help_check(c, w, se, cur, ", after " + tr)) return;
        for (const char* l : {"", "a", "s ", "s s", "..", ".. ", ".. a"}) if (!comp_check(c, w, se, cur, l, ", after " + tr)) return;
        w.expect_out = &other.out; for (auto& t : L) if (!feed_check(c, w, other, ocur, t, true, ", other session, after " + tr)) return;
        w.expect_out = &se.out;
    }
    c.note(tr);
}
static Reg e9({"C06", "inserted-later", "every sequence of up to the bound operations, by the owner or by a running handler, out of: inserting a command (three overloads of one name, a duplicate of the running one) or a submenu into any menu, enabling, disabling or removing any entry, old or new; execution, help and completions in two sessions are compared with the model after each", {2}, {3}, [](Ctx& c) { grow(c, true); }});
static Reg e9b({"C04", "inserted-later", "every sequence of up to the bound insertions (three overloads of one name, a duplicate of the running one, a submenu) into any menu while the Cli is in use, by the owner or by a running handler: insertion order decides, in two sessions", {2, 3}, {4}, [](Ctx& c) { grow(c, false); }});

static Reg e1({"C06", "handle-histories", "every sequence of up to the bound enable/disable/remove operations on the 8 nodes of a tree of depth 3 (overloaded names included); after each operation execution, help and completions are compared with the model everywhere",
    {2, 3}, {3, 4}, [](Ctx& c) {
        World w; handle_tree(w); w.build(); w.custom_wrong();
        string tr; Sess s(w); int cur = 0;
        for (int i = 0; i < c.bound(); ++i) {
            unsigned k = c.choose(8 * 3, "operation");
            int node = 1 + k / 3; do_op(w, node, k % 3);
            tr += string(opn[k % 3]) + " #" + to_string(node) + "; ";
            probe(c, w, s, cur, ", after " + tr);
            if (c.failed()) return;
        }
        c.note(tr + " -> " + w.dump());
    }});

static Reg e2({"C06", "from-handlers", "every pair of (command line, operation performed by its handler on any node): the handler of the command concerned, of a sibling, of a child of the removed submenu; followed by a full probe and further operations from outside",
    {1, 2}, {2, 3}, [](Ctx& c) {
        World w; handle_tree(w); w.build(); w.custom_wrong();
        static const vector<vector<string>> L = {{"a"}, {"s", "a"}, {"s", "t", "a"}, {"s", "t", "b"}, {"b", "1"}, {"s", "a", "1"}};
        Sess s(w); int cur = 0; string tr;
        for (int i = 0; i < c.bound(); ++i) {
            auto t = L[c.choose(L.size(), "line")]; unsigned k = c.choose(24, "operation in handler");
            int node = 1 + k / 3; unsigned op = k % 3;
            auto r = w.resolve(cur, t);
            int calls = 0; string args;
            w.on_call = [&](int) { if (!calls++) { if (op == 0) w.n[node].h.Enable(); else if (op == 1) w.n[node].h.Disable(); else w.n[node].h.Remove(); } };
            w.log.clear(); w.wrong.clear(); s.feed(join(t)); c.step();
            w.on_call = nullptr;
            tr += "[" + join(t) + ": " + opn[op] + " #" + to_string(node) + "] ";
            vector<string> el; if (r.what == World::Res::CALL) el.push_back(r.call);
            if (w.log != el) { c.fail("line " + join(t) + " ran " + showv(w.log) + " expected " + showv(el) + " after " + tr); return; }
            if (!el.empty()) { if (op == 2) mark_removed(w, node); else if (!w.n[node].removed) w.n[node].enabled = op == 0; }
            probe(c, w, s, cur, ", after " + tr);
            if (c.failed()) return;
        }
        c.note(tr + " -> " + w.dump());
    }});

static Reg e25({"C06", "several-from-a-handler", "every sequence of up to the bound handle operations on any nodes made inside one handler (also repeated ones, and on the command concerned), followed by the same handle operations once more from outside; execution, help and completions are compared with the model everywhere",
    {2, 3}, {3, 3}, [](Ctx& c) {
        World w; handle_tree(w); w.build(); w.custom_wrong();
        static const vector<vector<string>> L = {{"a"}, {"s", "t", "a"}, {"b", "1"}};
        Sess s(w); int cur = 0; auto t = L[c.choose(L.size(), "line")]; string tr = "[" + join(t) + ":";
        vector<pair<int, unsigned>> ops; for (int i = 0; i < c.bound(); ++i) { unsigned k = c.choose(24, "operation in handler"); ops.push_back({1 + int(k / 3), k % 3}); tr += string(" ") + opn[k % 3] + " #" + to_string(1 + k / 3); }
        tr += "] "; auto r = w.resolve(cur, t); int calls = 0;
        auto apply = [&](int node, unsigned op) { auto& h = w.n[node].h; if (op == 0) h.Enable(); else if (op == 1) h.Disable(); else h.Remove(); };
        auto model = [&](int node, unsigned op) { if (op == 2) mark_removed(w, node); else if (!w.n[node].removed) w.n[node].enabled = op == 0; };
        w.on_call = [&](int) { if (!calls++) for (auto& o : ops) apply(o.first, o.second); };
        w.log.clear(); w.wrong.clear(); s.feed(join(t)); c.step(); w.on_call = nullptr;
        vector<string> el; if (r.what == World::Res::CALL) el.push_back(r.call);
        if (w.log != el) { c.fail("line " + join(t) + " ran " + showv(w.log) + " expected " + showv(el) + " after " + tr); return; }
        for (auto& o : ops) model(o.first, o.second);
        probe(c, w, s, cur, ", after " + tr); if (c.failed()) return;
        for (auto& o : ops) { apply(o.first, o.second); model(o.first, o.second); }
        probe(c, w, s, cur, ", after " + tr + "and again from outside");
        c.note(tr + " -> " + w.dump());
    }});

static Reg e3({"C06", "inside-removed", "a session in any menu while any node is removed or disabled (from outside or by a handler run in that menu): every later line, help, completion and prompt is safe, built-ins keep working, nothing removed or disabled runs, other sessions are unaffected",
    {2, 3, 4}, {3, 4}, [](Ctx& c) {
        World w; handle_tree(w); w.build(); w.custom_wrong();
        auto ms = w.menus(); int m = ms[c.choose(ms.size(), "menu")];
        Sess s(w), other(w); w.expect_out = nullptr; int ocur = 0;
        if (m) s.feed(join(w.path(m)));
        int node = 1 + c.choose(8, "node"); unsigned op = 1 + c.choose(2, "disable/remove"); bool inh = c.choose(2, "from a handler in that menu");
        string tr = "in #" + to_string(m) + " " + opn[op] + " #" + to_string(node) + (inh ? " by a handler" : "") + "; ";
        w.log.clear();
        if (inh) { bool once = false; w.on_call = [&](int) { if (!once) { once = true; if (op == 1) w.n[node].h.Disable(); else w.n[node].h.Remove(); } }; s.feed("a"); w.on_call = nullptr; if (w.log.empty()) { c.prune(); return; } }
        else { if (op == 1) w.n[node].h.Disable(); else w.n[node].h.Remove(); }
        if (op == 1) w.n[node].enabled = false; else mark_removed(w, node);
        auto dead = [&](int id) { for (int x = id; x >= 0; x = w.n[x].parent) if (!w.n[x].enabled || w.n[x].removed) return true; return false; };
        static const vector<string> L = {"a", "..", "help", "s a", "t a", "b", "history", ".. b 1", "b 1", "a 1", "s", "r"};
        for (int i = 0; i < c.bound() - 1; ++i) {
            string l = L[c.choose(L.size(), "line")]; tr += l + "; ";
            w.log.clear(); string o = s.feed(l); c.step();
            for (auto& x : w.log) if (dead(atoi(x.c_str()))) { c.fail("a disabled or removed command ran: " + x + " (" + tr + ", tree " + w.dump() + ")"); return; }
            if (w.log.size() > 1) { c.fail("line ran " + to_string(w.log.size()) + " handlers (" + tr + ")"); return; }
            if (l == "help") { auto h = parse_help(o); if (h.size() < 4 || h[0].compare(0, 4, "help")) { c.fail("help lost the built-in commands (" + tr + ")"); return; } for (auto& x : h) { auto d = x.find("|desc"); if (d != string::npos && dead(atoi(x.c_str() + d + 5))) { c.fail("help lists " + x + " (" + tr + ", tree " + w.dump() + ")"); return; } } }
            if (s.prompt().find("> ") == string::npos) { c.fail("no prompt"); return; }
            auto cs = s.s->GetCompletions(""); if (find(cs.begin(), cs.end(), "help") == cs.end()) { c.fail("built-ins missing in completions"); return; }
            s.s->GetCompletions("s "); s.s->GetCompletions(".. ");
            c.state(hs(o + showv(cs) + s.prompt()));
        }
        w.expect_out = &other.out;
        probe(c, w, other, ocur, ", other session after " + tr);
        c.note(tr);
        // 'exit' still works
        string before; s.feed("exit"); if (!s.prompt().empty()) c.fail("prompt after exit (" + tr + ")");
    }});

static Reg e4({"C06", "after-destruction", "handles (originals, copies, default-constructed, assigned over) used in every order after their command, menu or whole Cli is gone, in every order of destruction with the session",
    {3}, {4}, [](Ctx& c) {
        World w; handle_tree(w); w.build();
        vector<cli::CmdHandler> hsv; for (auto& x : w.n) if (x.parent >= 0) hsv.push_back(x.h);
        hsv.push_back(cli::CmdHandler()); cli::CmdHandler copy = hsv[0]; hsv.push_back(copy); copy = hsv[1];
        auto s = make_unique<Sess>(w); unsigned ord = c.choose(3, "when");
        string tr = "order " + to_string(ord) + ": ";
        if (ord == 1) { s.reset(); w.cli.reset(); }
        for (int i = 0; i < c.bound(); ++i) {
            unsigned k = c.choose(6 * 3, "handle operation"); auto& h = k / 3 == 4 ? hsv[8] : k / 3 == 5 ? copy : hsv[k / 3];
            tr += string(opn[k % 3]) + " " + to_string(k / 3) + "; ";
            if (k % 3 == 0) h.Enable(); else if (k % 3 == 1) h.Disable(); else h.Remove();
            c.step();
            if (ord == 2 && i == 0) { s.reset(); w.cli.reset(); }
            if (s && ord == 0) s->feed("s t a");
        }
        c.state(hs(tr)); c.note(tr);
    }});

// ---------------------------------------------------------------- sizes: nothing depends on a count or a length
static Reg z1({"C04", "many", "sizes around every power of two and round number up to the bound: that many commands in the root or a submenu or alternating between both, that many arguments, names and arguments that long, submenus nested that deep (up to 65); every command is invoked and compared with the reference resolution",
    {0}, {0, 1}, [](Ctx& c) {
        unsigned n = size_choice(c); unsigned k = c.choose(7, "what is large");
        World w; w.add(-1, MENU, "r"); int m = w.add(0, MENU, "s"); vector<vector<string>> L;
        auto probe = [&](unsigned i) { return n <= 129 || i < 20 || i + 20 >= n || (i & 31) == 31 || (i & 31) == 0 || (i & 31) == 1; };
        c.note("size " + to_string(n) + ", case " + to_string(k));
        if (k < 3) {        // many commands
            for (unsigned i = 0; i < n; ++i) { int p = k == 0 ? 0 : k == 1 ? m : (i % 2 ? 0 : m); w.add(p, i % 5 == 4 ? INT : NOARG, "k" + to_string(i)); }
            for (unsigned i = 0; i < n; ++i) if (probe(i)) { vector<string> t; if (k == 1 || (k == 2 && i % 2 == 0)) t.push_back("s"); t.push_back("k" + to_string(i)); if (i % 5 == 4) t.push_back("7"); L.push_back(t); }
            L.push_back({"k" + to_string(n)}); L.push_back({"s", "k" + to_string(n)}); L.push_back({"k"});
        } else if (k == 3) { // many overloads: the last one matches
            for (unsigned i = 0; i + 1 < n; ++i) w.add(0, i % 2 ? INT : NOARG, "a"); w.add(0, STR, "a"); w.add(0, FREE, "a");
            L = {{"a"}, {"a", "1"}, {"a", "x"}, {"a", "x", "y"}};
        } else if (k == 4) { // many arguments
            w.add(0, INT, "a"); w.add(m, FREE, "a"); w.add(0, FREEVAL, "v");
            vector<string> t = {"s", "a"}; for (unsigned i = 0; i < n; ++i) t.push_back("x" + to_string(i)); L.push_back(t); t.erase(t.begin()); L.push_back(t); t[0] = "v"; L.push_back(t);
        } else if (k == 5) { // long names and arguments
            string a(n, 'a'); w.add(0, NOARG, a); w.add(0, STR, a + "a"); w.add(0, FREE, a.substr(1)); int q = w.add(0, MENU, a + "m"); w.add(q, STR, a); w.add(m, STR, "t");
            L = {{a}, {a + "a"}, {a + "a", a}, {a.substr(1), a, a}, {a + "m", a, string(n, 'b')}, {a.substr(2)}, {"s", "t", a}, {a + "aa"}, {"s", "t", string(n, '1')}};
        } else {            // deep
            if (n > 65) { c.prune(); return; }
            int p = 0; vector<string> t; for (unsigned i = 0; i < n; ++i) { p = w.add(p, MENU, "m" + to_string(i)); w.add(p, NOARG, "a"); t.push_back("m" + to_string(i)); auto u = t; u.push_back("a"); L.push_back(u); }
            w.build(); w.custom_wrong(); Sess s(w); int cur = 0;
            for (auto& u : L) if (!feed_check(c, w, s, cur, u, true)) return;
            if (!feed_check(c, w, s, cur, t, true)) return;          // down in one line
            vector<string> up; for (unsigned i = 0; i < n; ++i) { up.push_back(".."); auto u = up; u.push_back("m0"); u.push_back("a"); if (!feed_check(c, w, s, cur, u, true)) return; }
            if (!feed_check(c, w, s, cur, up, true)) return;         // up in one line
            for (unsigned i = 0; i < n; ++i) if (!feed_check(c, w, s, cur, {t[i]}, true)) return;
            if (!feed_check(c, w, s, cur, {"a"}, true)) return;
            for (unsigned i = 0; i < n; ++i) if (!feed_check(c, w, s, cur, {n >= 2 && i % 2 && cur > 0 && w.n[cur].parent > 0 ? w.n[w.n[cur].parent].name : ".."}, true)) return;
            if (!feed_check(c, w, s, cur, {"m0", "a"}, true)) return;
            return;
        }
        w.build(); w.custom_wrong(); Sess s(w); int cur = 0;
        for (auto& t : L) if (!feed_check(c, w, s, cur, t, true)) return;
        if (!feed_check(c, w, s, cur, {"s"}, true)) return;
        for (auto& t : L) { if (!feed_check(c, w, s, cur, t, true)) return; auto u = t; u.insert(u.begin(), ".."); if (!feed_check(c, w, s, cur, u, true)) return; }
    }, 120});
static Reg z1b({"C04", "long-session", "a session (and a second one on the same Cli) fed the given number of lines cyclically over valid commands, navigations, wrong commands and built-ins: each behaves as the first",
    {1500}, {70000}, [](Ctx& c) {
        World w; w.add(-1, MENU, "r"); w.add(0, NOARG, "a"); int m = w.add(0, MENU, "s"); w.add(m, INT, "a"); w.add(m, FREE, "b"); w.add(0, STR, "c"); w.build();
        bool cw = c.choose(2); if (cw) w.custom_wrong();
        static const vector<vector<string>> L = {{"a"}, {"s", "a", "1"}, {"x"}, {"s"}, {"a"}, {"a", "2"}, {".."}, {"c", "z"}, {"s", "b", "x", "y"}, {"history"}, {".."}, {"s", "q"}};
        unsigned from = c.choose(L.size(), "first line");
        Sess s(w), s2(w); int cur = 0, cur2 = 0;
        for (int i = 0; i < c.bound(); ++i) { w.expect_out = &s.out; if (!feed_check(c, w, s, cur, L[(i + from) % L.size()], cw, ", line " + to_string(i))) return; if (i % 7 == 0) { w.expect_out = &s2.out; if (!feed_check(c, w, s2, cur2, L[(i / 7) % L.size()], cw, ", line " + to_string(i))) return; } }
    }, 300});
static Reg z2({"C06", "many", "as C04/many: that many commands; every one of them disabled, then enabled or removed in forward or backward order while the others keep working, are listed by help and offered as completions",
    {0}, {0, 1}, [](Ctx& c) {
        unsigned n = size_choice(c); bool sub = c.choose(2, "in a submenu"), back = c.choose(2, "order"); unsigned kind = c.choose(3, "operation");
        World w; w.add(-1, MENU, "r"); int m = w.add(0, MENU, "s"); int p = sub ? m : 0; vector<int> ids; for (unsigned i = 0; i < n; ++i) ids.push_back(w.add(p, i % 7 == 3 ? MENU : NOARG, "k" + to_string(i)));
        for (int i : vector<int>(ids)) if (w.n[i].kind == MENU) w.add(i, NOARG, "x");
        w.build(); w.custom_wrong(); Sess s(w); int cur = 0; unsigned every = max(1u, n / 8);
        auto look = [&](unsigned j) { auto t = [&](unsigned i) { vector<string> v; if (sub) v.push_back("s"); v.push_back(w.n[ids[i]].name); if (w.n[ids[i]].kind == MENU) v.push_back("x"); return v; };
            for (unsigned i : {0u, j, j ? j - 1 : 0, j + 1 < n ? j + 1 : n - 1, n / 2, n - 1}) if (!feed_check(c, w, s, cur, t(i), true, ", at " + to_string(j))) return false;
            if (!help_check(c, w, s, cur)) return false; return comp_check(c, w, s, cur, sub ? "s " : "") && comp_check(c, w, s, cur, sub ? "s k1" : "k1"); };
        for (unsigned i = 0; i < n; ++i) { unsigned j = back ? n - 1 - i : i; do_op(w, ids[j], kind == 2 ? 2 : 1); if ((i % every == 0 || i + 1 == n) && !look(j)) return; }
        if (kind == 1) for (unsigned i = 0; i < n; ++i) { unsigned j = back ? n - 1 - i : i; do_op(w, ids[j], 0); if ((i % every == 0 || i + 1 == n) && !look(j)) return; }
        c.note("size " + to_string(n));
    }, 300});
static Reg z3({"C07", "many", "sizes as in C04/many: menus with that many entries, names, descriptions and parameter descriptions that long, that many parameter descriptions: help lists each entry exactly once, in order, unshortened",
    {0}, {0, 1}, [](Ctx& c) {
        unsigned n = size_choice(c); unsigned k = c.choose(4, "what is large"); bool sub = c.choose(2, "in a submenu");
        World w; w.add(-1, MENU, "r"); int m = w.add(0, MENU, "s"); int p = sub ? m : 0;
        if (k == 0) for (unsigned i = 0; i < n; ++i) { int q = w.add(p, i % 9 == 5 ? MENU : i % 2 ? INT : FREE, "k" + to_string(i)); if (i % 4 == 1) w.n[q].par = {"p" + to_string(i)}; }
        else if (k == 1) { w.add(p, NOARG, string(n, 'n')); w.add(p, MENU, string(n, 'm')); w.add(p, STR, "z"); }
        else if (k == 2) { int q = w.add(p, NOARG, "d"); w.n[q].desc = string(n, 'd'); q = w.add(p, MENU, "e"); w.n[q].desc = string(n - 1, 'e') + "f"; w.add(p, NOARG, "z"); }
        else { int q = w.add(p, FREE, "d"); for (unsigned i = 0; i < n; ++i) w.n[q].par.push_back("p" + to_string(i)); q = w.add(p, INT, "e"); w.n[q].par = {string(n, 'q')}; }
        w.build(); w.custom_wrong(); Sess s(w); int cur = 0;
        if (!help_check(c, w, s, cur) || !feed_check(c, w, s, cur, {"s"}, true) || !help_check(c, w, s, cur) || !feed_check(c, w, s, cur, {".."}, true) || !help_check(c, w, s, cur)) return;
    }, 120});
static Reg z4({"C08", "many", "sizes as in C04/many: that many candidate names (with a common prefix, in the current menu, a submenu or the parent), names that long, lines with that many nested menus (up to 65): the completions are exactly the reference set",
    {0}, {0, 1}, [](Ctx& c) {
        unsigned n = size_choice(c); unsigned k = c.choose(3, "what is large");
        World w; w.add(-1, MENU, "r"); int m = w.add(0, MENU, "s");
        if (k == 0) for (unsigned i = 0; i < n; ++i) { w.add(m, i % 9 == 5 ? MENU : NOARG, "k" + to_string(i)); w.add(0, i % 6 == 5 ? MENU : NOARG, "k" + to_string(i * 2)); }
        else if (k == 1) { string a(n, 'a'); w.add(0, NOARG, a); w.add(0, NOARG, a + "b"); w.add(0, NOARG, a + "a"); int q = w.add(m, MENU, a); w.add(q, NOARG, a + "c"); w.add(q, NOARG, "b" + a); w.add(m, NOARG, a + "s"); }
        else { if (n > 65) { c.prune(); return; } int p = 0; for (unsigned i = 0; i < n; ++i) { p = w.add(p, MENU, "m" + to_string(i)); w.add(p, NOARG, "a" + to_string(i)); } }
        w.build(); w.custom_wrong(); Sess s(w); int cur = 0; vector<string> L;
        if (k == 0) L = {"", "k", "k1", "k10", "k2", "k" + to_string(n - 1), "s ", "s k", "s k1", "s k" + to_string(n - 1), "k5 ", ".. k", ".. "};
        else if (k == 1) { string a(n, 'a'); L = {"a", a.substr(1), a, a + "b", "s a", "s " + a, "s " + a + " ", "s " + a + " " + a, "s " + a + " b" + a, "s " + a + "s", ".. " + a, a + a, string(n, ' ') + "s" + string(n, ' ') + "a", ".. " + a + "a"}; }
        else { string d; for (unsigned i = 0; i < n; ++i) { L.push_back(d + "m"); L.push_back(d + "a"); d += "m" + to_string(i) + " "; L.push_back(d); } string u = d; for (unsigned i = 0; i < n; ++i) { u += ".. "; L.push_back(u); L.push_back(u + "m"); } }
        for (auto& l : L) if (!comp_check(c, w, s, cur, l)) return;
        if (k == 2) { vector<string> t; for (unsigned i = 0; i < n; ++i) t.push_back("m" + to_string(i)); if (!feed_check(c, w, s, cur, t, true)) return; string d; for (unsigned i = 0; i < n; ++i) { d += ".. "; if (!comp_check(c, w, s, cur, d) || !comp_check(c, w, s, cur, d + "a") || !comp_check(c, w, s, cur, d + "m")) return; } }
        else if (!feed_check(c, w, s, cur, {"s"}, true)) return;
        for (auto& l : L) if (!comp_check(c, w, s, cur, l)) return;
        if (!w.log.empty()) c.fail("asking for completions ran a command");
    }, 120});

// ---------------------------------------------------------------- C16
struct MyEx : exception { const char* what() const noexcept override { return "my-what"; } };
struct MyCast : bad_cast { const char* what() const noexcept override { return "cast-what"; } };
struct Plain { int x; };
static const int NEX = 14;
static void throw_it(unsigned k)
{
    switch (k) {
        case 0: throw runtime_error("rt-what"); case 1: throw logic_error("le-what"); case 2: throw 42; case 3: throw bad_cast(); case 4: throw MyCast(); case 5: throw MyEx();
        case 6: throw bad_alloc(); case 7: throw out_of_range("oor-what"); case 8: throw string("str"); case 9: throw "literal"; case 10: throw Plain{1}; case 11: throw ios_base::failure("ios-what");
        case 12: throw cli::detail::bad_conversion(); case 13: throw system_error(make_error_code(errc::io_error), "sys-what");
    }
}
static bool is_std(unsigned k) { return !(k == 2 || k == 8 || k == 9 || k == 10); }
static string what_of(unsigned k) { try { throw_it(k); } catch (const exception& e) { return e.what(); } catch (...) {} return ""; }

static Reg x1({"C16", "sequences", "every sequence of up to the bound lines, each running one of 7 command forms (0 args, int, string, list, function pointer, in a submenu, via the parent) whose handler throws one of 14 exception types or none, with an overload after it that must not run; with and without custom exception and wrong-command handlers",
    {1, 2}, {2, 3}, [](Ctx& c) {
        World w; w.add(-1, MENU, "r");
        w.add(0, NOARG, "a"); w.add(0, FREE, "a");          // #2 overload that would also match
        w.add(0, INT, "b"); w.add(0, STR, "b");             // #4 matches the same line
        w.add(0, STR, "d"); w.add(0, FREE, "d");
        w.add(0, FREE, "f"); w.add(0, NOARG, "f");
        w.add(0, FPTR, "g"); w.add(0, STR, "g");
        int s = w.add(0, MENU, "s"); w.add(s, INT, "a"); w.add(s, STR, "a"); 
        w.add(0, FREEVAL, "v");
        bool ch = c.choose(2, "custom exception handler"), cw = c.choose(2, "custom wrong handler"), insub = c.choose(2, "start in submenu");
        w.build(); if (cw) w.custom_wrong();
        vector<string> eh; bool badstream = false; Sess se(w);
        string cat;
        if (ch) w.cli->StdExceptionHandler([&](ostream& o, const string& l, const exception& e) { if (&o != &se.out) badstream = true; eh.push_back(l + "|" + e.what() + "|" + typeid(e).name()); });
        int cur = 0; if (insub && !feed_check(c, w, se, cur, {"s"}, cw)) return;
        static const vector<vector<string>> L = {{"a"}, {"b", "1"}, {"d", "x"}, {"f", "1", "2"}, {"g", "3"}, {"s", "a", "4"}, {"a", "5"}, {"v"}};
        string tr;
        for (int i = 0; i < c.bound(); ++i) {
            auto t = L[c.choose(L.size(), "line")]; if (insub && c.choose(2, "via parent")) t.insert(t.begin(), "..");
            unsigned k = c.choose(NEX + 1, "exception");
            auto r = w.resolve(cur, t); string line = join(t);
            int n = 0; w.on_call = [&](int) { if (++n == 1 && k < NEX) throw_it(k); };
            w.log.clear(); w.wrong.clear(); eh.clear(); w.bad_out = false;
            tr += line + (k < NEX ? " throws " + to_string(k) : "") + "; ";
            string o = se.feed(line); c.step();
            w.on_call = nullptr;
            vector<string> el, ew, ee; string eo; bool thrown = false;
            if (r.what == World::Res::CALL) { el.push_back(r.call); thrown = k < NEX; } else if (r.what == World::Res::NONE) { if (cw) ew.push_back(line); else eo = "wrong command: " + line + "\n"; } else cur = r.id;
            c.state(mix(hs(tr), ch * 4 + cw * 2 + insub));
            if (w.log != el || w.wrong != ew || w.bad_out || badstream) { c.fail(tr + ": handlers " + showv(w.log) + " expected " + showv(el) + ", wrong-command " + showv(w.wrong)); return; }
            if (thrown) {
                if (is_std(k)) {
                    if (ch) { try { throw_it(k); } catch (const exception& e) { ee.push_back(line + "|" + e.what() + "|" + typeid(e).name()); } catch (...) {} }
                    else if (o.find(what_of(k)) == string::npos) { c.fail(tr + ": the message " + what_of(k) + " is not printed, output " + show(o)); return; }
                } else if (o.find(line) == string::npos) { c.fail(tr + ": no error with the command line printed, output " + show(o)); return; }
                if (o.find("wrong command") != string::npos) { c.fail(tr + ": reported as wrong command: " + show(o)); return; }
                if (ch && is_std(k) && !o.empty()) { c.fail(tr + ": unexpected output " + show(o)); return; }
            } else if (o != eo) { c.fail(tr + ": output " + show(o) + " expected " + show(eo)); return; }
            if (eh != ee) { c.fail(tr + ": exception handler calls " + showv(eh) + " expected " + showv(ee)); return; }
            if (se.prompt() != prompt_of(w, cur)) { c.fail(tr + ": prompt " + se.prompt()); return; }
        }
        // still working
        if (!feed_check(c, w, se, cur, insub ? vector<string>{"a", "7"} : vector<string>{"a"}, cw, ", after " + tr)) return;
        c.note(tr);
    }});
static Reg x3({"C16", "everywhere", "each of 14 exception types thrown by a handler that is run by Feed, by '!id', by a handler that feeds another line, by a file session, by keys (one at a time or queued) and by '!id' typed with keys, twice in a row, with and without custom exception handler: reported once each time, with that exception and line and on that session's stream; the session goes on",
    {0}, {0}, [](Ctx& c) {
        unsigned k = c.choose(NEX, "exception"), how = c.choose(7, "run by"); bool ch = c.choose(2, "custom exception handler"); static const char* H[] = {"Feed", "!id", "a handler", "a file session", "keys", "queued keys", "!id by keys"}; string tr = string("exception ") + to_string(k) + " in a command run by " + H[how] + (ch ? ", custom handler" : ""); c.note(tr); cli::SetNoColor();
        vector<string> eh, log; ostringstream out; ostream* bad = nullptr; cli::CliSession* sp = nullptr; auto m = make_unique<cli::Menu>("r"); m->Insert("tzq", [&](ostream&) { log.push_back("t"); throw_it(k); }); m->Insert("n", [&](ostream&) { log.push_back("n"); sp->Feed("tzq"); log.push_back("after"); }); m->Insert("k", [&](ostream& o) { log.push_back("k"); o << "fine\n"; }); m->Insert("tzq", [&](ostream&, const vector<string>&) { log.push_back("other"); });
        cli::Cli cl(move(m)); if (ch) cl.StdExceptionHandler([&](ostream& o, const string& l, const exception& e) { if (&o != &out) bad = &o; eh.push_back(l + "|" + e.what() + "|" + typeid(e).name()); });
        bool std_ = is_std(k); string one = ""; try { throw_it(k); } catch (const exception& e) { one = string("tzq|") + e.what() + "|" + typeid(e).name(); } catch (...) {}
        istringstream in("tzq\nk\ntzq\nk\n"); unique_ptr<cli::CliSession> s; QueueSched q; Kb kb(q); unique_ptr<cli::detail::CommandProcessor<cli::detail::TelnetScreen>> cp; cli::CliFileSession* f = nullptr;
        if (how == 3) s = unique_ptr<cli::CliSession>(f = new cli::CliFileSession(cl, in, out)); else s = make_unique<cli::CliSession>(cl, out, 10); sp = s.get(); if (how >= 4) cp = make_unique<cli::detail::CommandProcessor<cli::detail::TelnetScreen>>(*s, kb);
        auto line = [&](const string& l) { if (how < 4) s->Feed(l); else { for (char x : l) kb.key(Key{KeyType::ascii, x}); kb.key(RET); if (how != 5) q.drain(); } };
        vector<string> want;
        if (how == 1 || how == 6) { s->Feed("tzq"); if (std_ && ch) { if (eh != vector<string>{one}) { c.fail(tr + ": exception handler calls " + showv(eh)); return; } } eh.clear(); log.clear(); out.str(""); }
        for (int i = 0; i < 2; ++i) {
            if (how == 3) { if (!i) f->Start(); } else if (how == 1 || how == 6) { line("!0"); line("k"); } else if (how == 2) { line("n"); line("k"); } else { line("tzq"); line("k"); }
            if (how == 2) want.push_back("n"); want.push_back("t"); if (how == 2) want.push_back("after"); want.push_back("k"); c.step();
        }
        q.drain(); string o = out.str(); size_t n = 0, lines = 0; for (size_t p = o.find("fine\n"); p != string::npos; p = o.find("fine\n", p + 1)) ++n;
        if (log != want || n != 2) { c.fail(tr + ": executed " + showv(log) + ", expected " + showv(want) + ", output " + show(o)); return; }
        if (bad) { c.fail(tr + ": the exception handler got another stream"); return; }
        if (ch && std_ ? eh != vector<string>{one, one} : !eh.empty()) { c.fail(tr + ": exception handler calls " + showv(eh) + ", expected two times " + show(one)); return; }
        if (!(ch && std_)) { string w = std_ ? what_of(k) : "tzq"; size_t min = how == 4 || how == 5 ? 4 : 2; for (size_t p = o.find(w); p != string::npos; p = o.find(w, p + 1)) ++lines; if (std_ ? lines != 2 : lines < min) { c.fail(tr + ": " + show(w) + " is printed " + to_string(lines) + " times in " + show(o)); return; } }
        if (o.find("wrong command") != string::npos) c.fail(tr + ": reported as wrong command: " + show(o)); c.state(hs(tr)); c.outcome(hs(o));
    }});
static Reg x2({"C16", "many", "n handlers that throw one after another in one session (n around the powers of two up to the bound), and a handler throwing an exception whose text, or in a line whose text, is n characters long, with and without custom handler: each is reported in full, and the session goes on",
    {0}, {1}, [](Ctx& c) {
        size_t n = size_choice(c); unsigned how = c.choose(4, "shape"); bool custom = c.choose(2, "custom handler");
        ostringstream out; vector<string> seen; int ran = 0; auto m = make_unique<cli::Menu>("r");
        m->Insert("t", [&](ostream&, const string& x) { ++ran; throw runtime_error(x); }); m->Insert("u", [&](ostream&, const string&) { ++ran; throw 1; }); m->Insert("k", [&](ostream& o) { ++ran; o << "fine\n"; });
        cli::Cli k(move(m)); if (custom) k.StdExceptionHandler([&](ostream&, const string& l, const exception& e) { seen.push_back(l + "|" + e.what()); });
        cli::CliSession s(k, out, 4); c.state(mix(n, how)); string x(how == 0 || how == 3 ? 1 : n, 'w'); x += "z"; size_t times = how == 0 || how == 3 ? n : 1; bool unk = how == 2 || how == 3;
        for (size_t i = 0; i < times; ++i) {
            string line = (unk ? "u " : "t ") + x; out.str(""); seen.clear(); ran = 0; s.Feed(line); c.step();
            if (ran != 1) { c.fail("the handler ran " + to_string(ran) + " times"); return; }
            if (!unk && custom) { if (seen != vector<string>{line + "|" + x} || !out.str().empty()) { c.fail("exception " + to_string(i) + " with " + to_string(x.size()) + " characters: handler calls " + showv(seen) + ", output " + show(out.str())); return; } }
            else { if (!seen.empty() || out.str().find(unk ? line : x) == string::npos) { c.fail("exception " + to_string(i) + " with " + to_string(x.size()) + " characters is not reported in full: " + show(out.str())); return; } }
            if (out.str().find("wrong command") != string::npos) { c.fail("reported as wrong command"); return; }
            out.str(""); ran = 0; s.Feed("k"); if (ran != 1 || out.str() != "fine\n") { c.fail("after exception " + to_string(i) + " the session does not go on: " + show(out.str())); return; }
        }
        c.outcome(times);
    }});

// ---------------------------------------------------------------- several Clis, handlers replaced, Clis moved
// kind 0: wrong-command handlers (C04), 1: exception handlers (C16)
static void several(Ctx& c, int kind)
{
    static const vector<vector<string>> LW = {{"a"}, {"b", "1"}, {"s"}, {".."}, {"s", "a"}, {"zz"}, {"a", "1"}};
    struct Boom : runtime_error { using runtime_error::runtime_error; };
    World w[2]; for (int k = 0; k < 2; ++k) { w[k].add(-1, MENU, "r"); }
    w[0].add(0, NOARG, "a"); w[0].add(0, INT, "b"); { int s = w[0].add(0, MENU, "s"); w[0].add(s, NOARG, "a"); w[0].add(s, MENU, "t"); }
    w[1].add(0, STR, "a"); { int s = w[1].add(0, MENU, "s"); w[1].add(s, STR, "b"); } w[1].add(0, NOARG, "b");
    int hand[2]; vector<string> calls; string tr; // which handler is in force: 0 none, 1, 2
    ostream* seen = nullptr;
    auto set = [&](cli::Cli& cl, int k, int h) {
        if (kind == 0) { if (h) cl.WrongCommandHandler([&calls, &seen, k, h](ostream& o, const string& l) { seen = &o; calls.push_back(to_string(k) + "/" + to_string(h) + ": " + l); }); else cl.WrongCommandHandler({}); }
        else { if (h) cl.StdExceptionHandler([&calls, &seen, k, h](ostream& o, const string& l, const exception& e) { seen = &o; calls.push_back(to_string(k) + "/" + to_string(h) + ": " + l + " " + e.what()); }); else cl.StdExceptionHandler({}); }
        hand[k] = h;
    };
    for (int k = 0; k < 2; ++k) { w[k].build(); hand[k] = 0; if (c.choose(2, "handler set")) { set(*w[k].cli, k, 1); tr += "handler on " + to_string(k) + "; "; } }
    unsigned mv = c.choose(3, "moved");
    if (mv) { tr += mv == 1 ? "Cli 0 move-constructed; " : "Cli 0 move-assigned; "; unique_ptr<cli::Cli> n; if (mv == 1) n = make_unique<cli::Cli>(move(*w[0].cli)); else { auto m = make_unique<cli::Menu>("old"); m->Insert("zz", [&](ostream&) { calls.push_back("old command"); }); n = make_unique<cli::Cli>(move(m)); n->WrongCommandHandler([&](ostream&, const string&) { calls.push_back("old handler"); }); n->StdExceptionHandler([&](ostream&, const string&, const exception&) { calls.push_back("old handler"); }); *n = move(*w[0].cli); } w[0].cli = move(n); }
    Sess s0(w[0]), s1(w[1]); Sess* s[2] = {&s0, &s1}; int cur[2] = {0, 0};
    for (int i = 0; i < c.bound(); ++i) {
        unsigned k = c.choose(2, "Cli"), op = c.choose(LW.size() + (kind ? 6 : 3), "operation");
        if (op < 3) { set(*w[k].cli, k, op); tr += "handler of " + to_string(k) + (op ? " " + to_string(op) : string(" removed")) + "; "; continue; }
        unsigned x = op - 3; int ex = -1; // an exception thrown by the handler, for C16
        if (kind) { ex = x < 3 ? 0 : x < 6 ? 1 : -1; x = x < 6 ? x % 3 == 2 ? 4 : x % 3 : x - 3; if (x >= LW.size()) { c.prune(); return; } }
        const auto& t = LW[x]; string line = join(t); auto r = w[k].resolve(cur[k], t); tr += to_string(k) + ": " + line + (ex == 0 ? " (throws)" : ex == 1 ? " (throws 1)" : "") + "; ";
        if (ex >= 0 && r.what != World::Res::CALL) { c.prune(); return; }
        w[0].log.clear(); w[1].log.clear(); calls.clear(); seen = nullptr; w[0].bad_out = w[1].bad_out = false; w[k].on_call = [&](int) { if (ex == 0) throw Boom("boom-what"); if (ex == 1) throw 1; };
        s[0]->out.str(""); s[1]->out.str(""); s[k]->s->Feed(line); w[k].on_call = nullptr; c.step(); string o = s[k]->out.str(), other = s[1 - k]->out.str();
        vector<string> el, ec; string eo; string tag = to_string(k) + "/" + to_string(hand[k]) + ": " + line;
        if (r.what == World::Res::CALL) { el.push_back(r.call); if (ex == 0) { if (hand[k] && kind) ec.push_back(tag + " boom-what"); else eo = "boom-what\n"; } }
        else if (r.what == World::Res::NAV) cur[k] = r.id; else if (hand[k] && !kind) ec.push_back(tag); else eo = "wrong command: " + line + "\n";
        if (w[k].log != el || !w[1 - k].log.empty() || w[0].bad_out || w[1].bad_out) { c.fail(tr + "handlers run " + showv(w[k].log) + ", expected " + showv(el) + "; in the other Cli " + showv(w[1 - k].log)); return; }
        if (calls != ec) { c.fail(tr + "reported " + showv(calls) + ", expected " + showv(ec)); return; }
        if (seen && seen != &s[k]->out) { c.fail(tr + "reported on another stream"); return; }
        if (!other.empty()) { c.fail(tr + "the session of the other Cli shows " + show(other)); return; }
        if (ex == 1 ? o.find(line) == string::npos || o.find("wrong command") != string::npos : o != eo) { c.fail(tr + "output " + show(o) + ", expected " + show(eo)); return; }
        for (int j = 0; j < 2; ++j) if (s[j]->prompt() != prompt_of(w[j], cur[j])) { c.fail(tr + "prompt of " + to_string(j) + " " + show(s[j]->prompt())); return; }
        c.state(mix(hs(o + showv(calls)), hand[0] * 9 + hand[1] * 3 + cur[0] + 27 * cur[1]));
    }
    c.note(tr);
}
static Reg y1({"C04", "several-clis", "two Clis with different trees and a session each, the first one as built, move-constructed or move-assigned over another one; every sequence of up to the bound operations: one of 7 lines on either, setting, replacing or removing the wrong-command handler of either: handlers, reports and prompts are those of the Cli concerned",
    {2, 3}, {4}, [](Ctx& c) { several(c, 0); }});
static Reg y2({"C16", "several-clis", "two Clis as in C04/several-clis; every sequence of up to the bound operations: one of 7 lines on either, commands that throw a std::exception or an int, setting, replacing or removing the exception handler of either: each exception goes once to the handler in force of the Cli concerned, or is printed",
    {2, 3}, {4}, [](Ctx& c) { several(c, 1); }});
static Reg y3({"C04", "nested", NESTED_TEXT, {3}, {4, 5}, [](Ctx& c) { Nesting(c, c.bound()); }});

// ---------------------------------------------------------------- every kind of callable
namespace callables {
static vector<string> got; static ostream* on;
template <typename T> string one(const T& x) { ostringstream o; o << boolalpha << x; return o.str(); }
static string one(const vector<string>& x) { return "[" + World::lst(x) + "]"; }
template <typename... A> string all(const A&... a) { vector<string> v{one(a)...}; return World::lst(v); }
template <typename R> R val() { return R(); }
template <> void val<void>() {}
template <typename R, typename... A> R free_fn(ostream& o, A... a) { on = &o; got.push_back("fptr " + all(a...)); return val<R>(); }
template <typename R, typename... A> struct Functor { string tag; R operator()(ostream& o, A... a) const { on = &o; got.push_back(tag + " " + all(a...)); return val<R>(); } };
// how: 0 function pointer, 1 functor, 2 std::function, 3 generic lambda through a wrapper, 4 functor with parameter names first
template <typename R, typename... A> cli::CmdHandler ins(cli::Menu& m, int how, const string& name)
{
    switch (how) {
        case 0: { R (*p)(ostream&, A...) = &free_fn<R, A...>; return m.Insert(name, p, "help"); }
        case 1: return m.Insert(name, Functor<R, A...>{"functor"}, "help");
        case 2: return m.Insert(name, function<R(ostream&, A...)>(Functor<R, A...>{"std"}), "help", {"x"});
        case 3: { string t = "lambda"; return m.Insert(name, [t](ostream& o, A... a) -> R { on = &o; got.push_back(t + " " + all(a...)); return val<R>(); }); }
        default: return m.Insert(name, {"p", "q"}, Functor<R, A...>{"named"}, "help");
    }
}
struct Sig { const char* name; function<cli::CmdHandler(cli::Menu&, int, const string&)> f; vector<string> good, shown, bad; };
template <typename R> static void sigs(vector<Sig>& v)
{
    using S = string; using cS = const string&;
    v.push_back({"()", ins<R>, {}, {}, {}});
    v.push_back({"(string)", ins<R, S>, {"x"}, {"x"}, {""}});
    v.push_back({"(const string&)", ins<R, cS>, {"7"}, {"7"}, {""}});
    v.push_back({"(const int&)", ins<R, const int&>, {"7"}, {"7"}, {"x"}});
    v.push_back({"(int,string,bool)", ins<R, int, S, bool>, {"1", "a", "true"}, {"1", "a", "true"}, {"a", "", "2"}});
    v.push_back({"(string,const string&,char)", ins<R, S, cS, char>, {"p", "q", "c"}, {"p", "q", "c"}, {"", "", "cc"}});
    v.push_back({"(unsigned,double,long,bool)", ins<R, unsigned, double, long, bool>, {"1", "0.5", "-3", "false"}, {"1", "0.5", "-3", "false"}, {"-1", "0.5x", "3.0", "x"}});
    v.push_back({"(char,short,int,long,string,float)", ins<R, char, short, int, long, S, float>, {"c", "1", "2", "3", "s", "4.5"}, {"c", "1", "2", "3", "s", "4.5"}, {"cc", "99999", "a", "b", "", "x"}});
    v.push_back({"(8 ints)", ins<R, int, int, int, int, int, int, int, int>, {"1", "2", "3", "4", "5", "6", "7", "8"}, {"1", "2", "3", "4", "5", "6", "7", "8"}, {"a", "b", "c", "d", "e", "f", "g", "h"}});
}
}
static Reg y4({"C04", "callables", "commands made of every kind of callable (function pointer, functor, std::function, lambda, with parameter names first) x 9 signatures of 0 to 8 parameters of mixed types, by value and by reference x returning nothing or a value, in the root or a submenu, before another one of the same name: called with all arguments right, one missing, one too many, or a bad one in each position; the handler runs exactly when all are right, with the values in order and the session's stream", {0}, {0}, [](Ctx& c) {
    using namespace callables; static vector<Sig> v; static bool ready = (sigs<void>(v), sigs<int>(v), sigs<string>(v), true); (void)ready; static const char* TAG[] = {"fptr", "functor", "std", "lambda", "named"};
    auto& s = v[c.choose(v.size(), "signature")]; int how = c.choose(5, "callable"); bool sub = c.choose(2, "in a submenu"); unsigned n = s.good.size(), call = c.choose(3 + n, "call"); string tr = string(TAG[how]) + s.name;
    auto m = make_unique<cli::Menu>("r"); auto u = make_unique<cli::Menu>("u"); cli::Menu* where = sub ? u.get() : m.get(); s.f(*where, how, "f"); where->Insert("f", [](ostream& o, const vector<string>& a) { on = &o; got.push_back("other " + World::lst(a)); }); m->Insert(move(u)); cli::Cli cl(move(m)); ostringstream out; cli::CliSession se(cl, out);
    vector<string> a = s.good; string want = string(TAG[how]) + " " + World::lst(s.shown);
    if (call == 1) { if (!n) { c.prune(); return; } a.pop_back(); } if (call == 2) a.push_back("9"); if (call > 2) { if (s.bad[call - 3].empty()) { c.prune(); return; } a[call - 3] = s.bad[call - 3]; } if (call) want = "other " + World::lst(a);
    string line = (sub ? "u f" : "f"); for (auto& x : a) line += " " + x; tr += ": " + line; got.clear(); on = nullptr; se.Feed(line); c.step(); c.state(hs(tr)); c.note(tr);
    if (got != vector<string>{want}) { c.fail(tr + " ran " + showv(got) + ", expected " + want); return; } if (on != &out) { c.fail(tr + ": another stream"); return; } if (!out.str().empty()) c.fail(tr + ": output " + show(out.str())); c.outcome(hs(want)); }});
