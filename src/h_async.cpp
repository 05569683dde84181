// The asynchronous session on standard input: C32, C30, C17. Standard input is a pipe, standard output a string.
#include "net.h"
#ifdef STD_ASIO
#include <cli/standaloneasiocliasyncsession.h>
#else
#include <cli/boostasiocliasyncsession.h>
#endif
#include <cli/loopscheduler.h>
#include <cli/detail/commandprocessor.h>
#include <cli/detail/telnetscreen.h>
#include <cli/detail/screen.h>
#include "refhist.h"
#include <cli/clifilesession.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <iostream>
#include <sstream>
#include <cstring>

namespace {
struct ARig {
    int wr = -1, save; ostringstream out; streambuf* oldbuf; vector<string> log; cli::Cli cl; unique_ptr<LASIO::io_context> ext; unique_ptr<ASIOSCHED> sch; unique_ptr<ASYNCSES> s; string pend;
    static unique_ptr<cli::Menu> menu(ARig* r)
    {
        auto m = make_unique<cli::Menu>("cli"); m->Insert("a", [r](ostream& o) { r->log.push_back("A"); o << "A\n"; }); m->Insert("t", [r](ostream&) { r->log.push_back("T"); throw runtime_error("thrown"); });
        m->Insert("quit", [r](ostream&) { r->log.push_back("Q"); r->s->Exit(); }); auto sub = make_unique<cli::Menu>("s", "", "cli"); sub->Insert("b", [r](ostream& o) { r->log.push_back("B"); o << "B\n"; }); m->Insert(move(sub)); return m;
    }
    ARig(Ctx& c, bool external = false, unique_ptr<cli::HistoryStorage> st = nullptr) : cl(menu(this), st ? move(st) : make_unique<cli::VolatileHistoryStorage>())
    {
        reset_net(&c); AC = &c; reads = 0; inj_read = false; rbudget = 0; watch_dup = -1;
        int p[2]; if (pipe(p)) abort(); save = dup(0); watch_dup = -1; dup2(p[0], 0); close(p[0]); wr = p[1]; fcntl(wr, F_SETPIPE_SZ, 1 << 20); oldbuf = cout.rdbuf(out.rdbuf()); cout.clear();
        cl.WrongCommandHandler([this](ostream&, const string& l) { log.push_back(l); });
        cl.StdExceptionHandler([this](ostream&, const string& l, const exception& e) { log.push_back(l + ":" + e.what()); });
        if (external) { ext = make_unique<LASIO::io_context>(); sch = make_unique<ASIOSCHED>(*ext); } else sch = make_unique<ASIOSCHED>();
    }
    void start() { s = make_unique<ASYNCSES>(*sch, cl); }
    void put(const string& t) { size_t i = 0; while (i < t.size()) { long r = syscall(SYS_write, wr, t.data() + i, t.size() - i); if (r <= 0) break; i += r; } }
    void eof() { if (wr >= 0) close(wr); wr = -1; }
    bool one() { auto& x = sch->AsioContext(); if (x.stopped()) x.restart(); return x.poll_one(); }
    size_t run() { size_t n = 0; while (n < 200000 && one()) ++n; return n; }
    ~ARig() { s.reset(); sch.reset(); ext.reset(); eof(); cout.rdbuf(oldbuf); dup2(save, 0); close(save); watch_dup = -1; }
};
struct ARef { vector<string> log; size_t prompts = 1; bool ended = false; bool sub = false; };
static string trim_(const string& l) { size_t a = l.find_first_not_of(" \t"), b = l.find_last_not_of(" \t"); return a == string::npos ? "" : l.substr(a, b - a + 1); }
static ARef aref(const string& in)
{
    ARef r; size_t p = 0;
    while (!r.ended) {
        size_t q = in.find('\n', p); if (q == string::npos) break; string l = in.substr(p, q - p); p = q + 1;
        string t = trim_(l);
        if (t == "exit") { r.ended = true; break; }
        if (t == "quit" && !r.sub) { r.log.push_back("Q"); r.ended = true; break; }
        ++r.prompts;
        if (t.empty()) continue;
        if (t == "s" && !r.sub) { r.sub = true; continue; }
        if (r.sub && t == "..") { r.sub = false; continue; }
        if (r.sub && t == "b") { r.log.push_back("B"); continue; }
        if (t == "a" && !r.sub) { r.log.push_back("A"); continue; }
        if (t == "t" && !r.sub) { r.log.push_back("T"); r.log.push_back(l + ":thrown"); continue; }
        r.log.push_back(l);
    }
    return r;
}
static size_t cnt_(const string& s, const string& w) { size_t n = 0; for (size_t p = s.find(w); p != string::npos; p = s.find(w, p + 1)) ++n; return n; }
static size_t prompts_of(const string& o) { return cnt_(o, "cli> ") + cnt_(o, "s> ") ; }
struct ACase { string in; vector<size_t> cuts; bool early = false, eof = false, ext = false; int faults = 0; };
static string brief(const string& s) { return s.size() > 120 ? "(" + to_string(s.size()) + " bytes) ..." + show(s.substr(s.size() - 40)) : show(s); }
static void acase(Ctx& c, const ACase& k, const string& tr)
{
    ARig r(c, k.ext); if (k.faults) { inj_read = true; rbudget = k.faults; }
    int gx = 0; r.cl.ExitAction([&](ostream&) { ++gx; });
    size_t p = 0, i = 0; vector<size_t> cuts = k.cuts; cuts.push_back(k.in.size());
    if (k.early) { r.put(k.in.substr(0, cuts[0])); p = cuts[0]; i = 1; if (k.eof && i == cuts.size()) r.eof(); }
    r.start(); if (k.early) { r.run(); ARef e = aref(k.in.substr(0, p)); if (r.log != e.log) { c.fail(tr + ": executed " + showv(r.log) + ", expected " + showv(e.log)); return; } }
    for (; i < cuts.size(); ++i) {
        r.put(k.in.substr(p, cuts[i] - p)); p = cuts[i]; if (k.eof && i + 1 == cuts.size() && i % 2 == 0) r.eof(); size_t n = r.run(); c.step();
        if (n > 20 * (k.in.size() + 10)) { c.fail(tr + ": the session spins (" + to_string(n) + " handlers)"); return; }
        ARef e = aref(k.in.substr(0, p));
        if (r.log != e.log) { c.fail(tr + ": after " + to_string(p) + " bytes executed " + showv(r.log) + ", expected " + showv(e.log)); return; }
        if (prompts_of(r.out.str()) != e.prompts) { c.fail(tr + ": after " + to_string(p) + " bytes " + to_string(prompts_of(r.out.str())) + " prompts, expected " + to_string(e.prompts) + " in " + brief(r.out.str())); return; }
    }
    ARef e = aref(k.in);
    if (k.eof) {
        r.eof(); size_t before = reads; size_t n = r.run(); n += r.run(); if (n > 10 || reads - before > 20) { c.fail(tr + ": spins at the end of input"); return; }
        if (r.log != e.log || prompts_of(r.out.str()) != e.prompts) { c.fail(tr + ": at the end of input executed " + showv(r.log) + " with " + to_string(prompts_of(r.out.str())) + " prompts, expected " + showv(e.log)); return; }
        if (gx != 1) { c.fail(tr + ": exit action run " + to_string(gx) + " times at the end of input"); return; }
    } else if (gx != (e.ended ? 1 : 0)) { c.fail(tr + ": exit action run " + to_string(gx) + " times"); return; }
    if (e.ended && !k.eof && !k.faults) { r.put("a\n"); r.run(); if (r.log != e.log) { c.fail(tr + ": a line after exit was executed"); return; } }
    c.state(hs(k.in, k.cuts.size())); c.outcome(hs(showv(r.log), e.prompts));
}
static vector<size_t> acuts(unsigned k, size_t n) { vector<size_t> r; if (k == 1) for (size_t i = 1; i < n; ++i) r.push_back(i); else if (k > 1) r.push_back(k - 1); return r; }
static string acn(unsigned k) { return k == 0 ? " at once" : k == 1 ? " byte by byte" : " cut after byte " + to_string(k - 1); }
static Reg a1({"C32", "texts", "every text of up to the bound characters over {a, x, blank, newline, CR, NUL, 255}, at once, byte by byte, or cut once anywhere; with or without end of input afterwards", {4, 5}, {5, 6}, [](Ctx& c) {
    static const string A{"ax \n\r\0\xff", 7}; ACase k; int n = c.choose(c.bound() + 1, "length"); for (int i = 0; i < n; ++i) k.in += A[c.choose(A.size(), "character")]; unsigned q = c.choose(n > 2 ? n + 1 : max(n, 1), "cut"); k.cuts = acuts(q, n); k.eof = c.choose(2, "eof"); string tr = show(k.in) + acn(q) + (k.eof ? " eof" : ""); c.note(tr); acase(c, k, tr); }});
static Reg a2({"C32", "lines", "every sequence of up to the bound lines out of {a, ' a  ', exit, quit, s, b, t (throws), blank, x y, CR, exitx}, last one with or without newline, at once, byte by byte or cut at every position; already there when the session starts or arriving later; owned or external context; end of input or not", {2, 3}, {3}, [](Ctx& c) {
    static const vector<string> L = {"a", " a  ", "exit", "quit", "s", "b", "t", "", "x y", "a\r", "exitx"}; ACase k; int n = c.choose(c.bound() + 1, "lines"); for (int i = 0; i < n; ++i) { k.in += L[c.choose(L.size(), "line")]; if (i + 1 < n || c.choose(2, "newline")) k.in += "\n"; }
    unsigned q = c.choose(max<size_t>(k.in.size() + 1, 1), "cut"); if (k.in.size() < 2) q = 0; k.cuts = acuts(q, k.in.size()); unsigned v = c.choose(8, "variant"); k.early = v & 1; k.eof = v & 2; k.ext = v & 4; string tr = show(k.in) + acn(q) + (k.early ? " early" : "") + (k.eof ? " eof" : "") + (k.ext ? " external context" : ""); c.note(tr); acase(c, k, tr); }});
static Reg a3({"C32", "two-cuts", "3 texts of several lines cut at every pair of positions", {1}, {1}, [](Ctx& c) {
    static const vector<string> T = {"a\nx\n a\n\nb c\n", "s\nb\n..\na\nexit\na\n", "a\na\na\na\nxx"}; ACase k; k.in = T[c.choose(3, "text")]; size_t i = c.choose(k.in.size(), "first cut"), j = c.choose(k.in.size(), "second cut"); if (j < i) { c.prune(); return; } k.cuts = {i, j}; k.eof = c.choose(2, "eof"); string tr = show(k.in) + " cut at " + to_string(i) + ", " + to_string(j); c.note(tr); acase(c, k, tr); }});
static Reg a4({"C32", "long-lines", "lines of every length around the read sizes (510..514, 1022..1026, 4094..4098) and of 70000 bytes, several together with more than a buffer in total, before and after short ones, cut at 512 or not", {1}, {1}, [](Ctx& c) {
    static vector<size_t> N; if (N.empty()) { for (size_t b : {512, 1024, 4096}) for (size_t i = b - 2; i <= b + 2; ++i) N.push_back(i); N.push_back(70000); } ACase k; size_t n = N[c.choose(N.size(), "length")]; string l(n, 'y'); for (size_t i = 0; i < n; ++i) l[i] = 'b' + i % 20;
    switch (c.choose(4, "shape")) { case 0: k.in = l + "\na\n"; break; case 1: k.in = "a\n" + l + "\n"; break; case 2: for (int i = 0; i < 300; ++i) k.in += i % 3 ? "a\n" : "x" + to_string(i) + "\n"; k.in += l + "\na\n"; break; case 3: k.in = l + "\n" + l + "\nx"; break; }
    if (c.choose(2, "cut")) k.cuts = {min<size_t>(512, k.in.size() - 1)}; k.eof = c.choose(2, "eof"); string tr = brief(k.in); c.note(tr); acase(c, k, tr); }});
static Reg a4b({"C32", "many-lines", "that many lines (sizes around every power of two and round number up to the bound, and up to 20000; commands, refused, blank, mixed) there at once, in pieces of 512, 1000 or 4096 bytes, before or after the start, with exit or end of input at the end or not", {0}, {0, 1}, [](Ctx& c) {
    static const unsigned big[] = {4095, 4096, 4097, 5000, 20000}; auto& v = sizes(c.bound()); unsigned ix = c.choose(v.size() + 5, "size"); size_t n = ix < v.size() ? v[ix] : big[ix - v.size()]; unsigned kind = c.choose(4, "kind"), end = c.choose(3, "end"); static const size_t P[] = {0, 512, 1000, 4096}; size_t pk = P[c.choose(4, "pieces")]; ACase k; k.early = c.choose(2, "early"); k.eof = end == 2;
    if (n > 2100 && ((pk && pk < 4096) || kind == 1)) { c.prune(); return; }
    for (size_t i = 0; i < n; ++i) k.in += kind == 0 ? "a\n" : kind == 1 ? "x" + to_string(i) + "\n" : kind == 2 ? "\n" : i % 3 == 0 ? "a\n" : i % 3 == 1 ? "  \n" : "y " + to_string(i % 10) + "\n"; if (end == 1) k.in += "exit\na\n";
    if (pk) for (size_t p = pk; p < k.in.size(); p += pk) k.cuts.push_back(p); string tr = to_string(n) + " lines, kind " + to_string(kind) + ", pieces " + to_string(pk) + ", end " + to_string(end) + (k.early ? " early" : ""); c.note(tr); acase(c, k, tr); }, 120});
static Reg a5({"C32", "read-faults", "3 texts with up to the bound reads returning a single byte or interrupted, at every point; at once or byte by byte", {1, 2}, {3}, [](Ctx& c) {
    static const vector<string> T = {"a\nx\na\n", "exit\na\n", "a\n\nxx"}; ACase k; k.in = T[c.choose(3, "text")]; unsigned q = c.choose(2, "cut"); k.cuts = acuts(q, k.in.size()); k.eof = c.choose(2, "eof"); k.faults = c.bound(); string tr = show(k.in) + acn(q) + " with read faults"; c.note(tr); acase(c, k, tr); }});
// C17
static Reg a6({"C17", "async", "async sessions: every set of actions (global enter, session exit, global exit) x every sequence of up to the bound lines out of {a, exit, quit, s, blank, t}, then end of input or not, at once or line by line; exit actions that ask for exit again", {2, 3, 4}, {4}, [](Ctx& c) {
    static const vector<string> L = {"a\n", "exit\n", "quit\n", "s\n", "\n", "t\n"}; ARig r(c); bool ge = c.choose(2, "global enter"), sx = c.choose(2, "session exit"), gx = c.choose(2, "global exit"), again = c.choose(2, "exit again"), batch = c.choose(2, "at once"), eof = c.choose(2, "end of input");
    if (ge) r.cl.EnterAction([](ostream& o) { o << "<GE>"; }); if (gx) r.cl.ExitAction([&](ostream& o) { o << "<GX>"; if (again) r.s->Exit(); }); r.start(); if (sx) r.s->ExitAction([&](ostream& o) { o << "<SX>"; if (again) r.s->Exit(); });
    string in; int n = c.choose(c.bound() + 1, "lines"); for (int i = 0; i < n; ++i) { string l = L[c.choose(L.size(), "line")]; in += l; r.put(l); if (!batch) r.run(); c.step(); } r.run(); ARef e = aref(in); if (eof) { r.eof(); r.run(); }
    bool ended = e.ended || eof; string o = r.out.str(), tr = show(in) + (eof ? " eof" : "") + (again ? " re-exit" : ""); c.note(tr + " " + show(o));
    string head = string(ge ? "<GE>" : "") + "cli> ", tail = string(sx ? "<SX>" : "") + (gx ? "<GX>" : "");
    if (o.compare(0, head.size(), head) || cnt_(o, "<GE>") != ge) c.fail(tr + ": enter action missing, repeated or late: " + show(o));
    if (cnt_(o, "<SX>") != (ended && sx) || cnt_(o, "<GX>") != (ended && gx)) c.fail(tr + ": exit actions not run exactly once: " + show(o));
    if (ended && (o.size() < tail.size() || o.compare(o.size() - tail.size(), tail.size(), tail))) c.fail(tr + ": exit actions out of order or followed by output: " + show(o));
    if (prompts_of(o) != e.prompts) c.fail(tr + ": " + to_string(prompts_of(o)) + " prompts, expected " + to_string(e.prompts) + ": " + show(o));
    c.state(hs(o, ended)); }});
// C14
static Reg a6b({"C14", "async-sessions", "two async sessions one after the other on a recording storage with 0..3 preloaded commands: every sequence of up to the bound lines out of {a, t (throws), wrong, blank, history, '!' with the id of the latest command, quit, exit}, at once or line by line, ended by exit, by the program or by the end of input: what is stored, once, at the end is the end of the session's own commands; '!' runs the latest command, also a loaded one", {3, 4}, {4}, [](Ctx& c) {
    struct RecSt : cli::HistoryStorage { vector<string>& v; vector<vector<string>>& st; RecSt(vector<string>& a, vector<vector<string>>& b) : v(a), st(b) {} void Store(const vector<string>& x) override { st.push_back(x); v.insert(v.end(), x.begin(), x.end()); } vector<string> Commands() const override { return v; } void Clear() override { v.clear(); } };
    static const vector<vector<string>> LD = {{}, {"a"}, {"b", "a"}, {"x", "x", "a"}}; auto have = LD[c.choose(4, "preloaded")]; vector<vector<string>> st; bool batch = c.choose(2, "at once"); string tr = "preloaded " + showv(have) + (batch ? " at once: " : ": ");
    ARig a(c, false, make_unique<RecSt>(have, st));
    for (int round = 0; round < 2 && !c.failed(); ++round) {
        RefHistory r(1000); r.load(have); a.log.clear(); st.clear(); vector<string> want; bool ended = false; int n = c.choose((round ? 1 : c.bound()) + 1, "lines"); a.start();
        auto run = [&](const string& t) { if (t == "a") want.push_back("A"); else if (t == "t") { want.push_back("T"); want.push_back("t:thrown"); } else if (t == "quit") { want.push_back("Q"); ended = true; } else if (t == "exit") ended = true; else if (t != "history") want.push_back(t); };
        for (int i = 0; i < n && !ended; ++i) {
            unsigned k = c.choose(8, "line"); string l; c.step();
            if (k == 7) { if (r.e.empty() || r.e.back().text == "history") { c.prune(); return; } l = "!" + to_string(r.e.back().id); string t = r.e.back().text; r.enter(t); run(t); }
            else { static const char* L[] = {"a", "t", "x", " ", "history", "quit", "exit"}; l = L[k]; if (k == 3) r.blank(); else { r.enter(l); run(l); } }
            tr += show(l) + ", "; a.put(l + "\n"); if (!batch) a.run(); if (!batch && !ended && !st.empty()) { c.fail(tr + "stored before the end"); return; }
        }
        a.run(); if (!ended) { a.eof(); a.run(); tr += "end of input; "; } else tr += "; ";
        if (a.log != want) { c.fail(tr + "ran " + showv(a.log) + ", expected " + showv(want)); return; }
        string bad = judge_stored(st, r.own()); if (!bad.empty()) { c.fail(tr + bad); return; }
        c.state(hs(tr)); c.outcome(hs(showv(r.own()))); a.s.reset(); a.run(); if (!st.empty() && st.size() > 1) { c.fail(tr + "stored again when the session is destroyed"); return; }
        if (a.wr < 0) break;
    }
    c.note(tr); }});
// C30
static Reg a7({"C30", "async", "an async session destroyed by its owner after every number of handlers with input lines (whole or partial) or end of input pending; the scheduler then runs on: nothing is executed, nothing printed; a new session on the same input works", {1}, {1}, [](Ctx& c) {
    static const vector<string> T = {"", "a", "a\n", "a\nx\n", "exit\na\n", "a\na"}; ARig r(c, c.choose(2, "external context")); string t = T[c.choose(T.size(), "input")]; bool early = c.choose(2, "input is there at start"); if (early) r.put(t); r.start(); if (!early) r.put(t); bool eof = c.choose(2, "eof"); if (eof) r.eof(); unsigned k = c.choose(6, "handlers"); for (unsigned i = 0; i < k; ++i) r.one();
    r.s.reset(); auto log = r.log; string o = r.out.str(), tr = show(t) + " " + to_string(k) + " handlers" + (eof ? " eof" : ""); c.note(tr); r.run(); c.step(); if (r.log != log || r.out.str() != o) { c.fail(tr + ": the destroyed session executed or printed something"); return; }
    if (!eof && t.find("exit") == string::npos) { r.put("\n"); size_t z = r.log.size(); r.start(); r.run(); r.put("zz\n"); r.run(); if (r.log.size() == z || r.log.back() != "zz") c.fail(tr + ": a new session does not get its input: " + showv(r.log)); } c.state(hs(tr)); }});
struct LKb : cli::detail::InputDevice { explicit LKb(cli::Scheduler& s) : InputDevice(s) {} void key(cli::detail::KeyType t, char ch = ' ') { Notify(make_pair(t, ch)); } };
struct LSess { ostringstream out; LKb kb; cli::CliSession s; cli::detail::CommandProcessor<cli::detail::TelnetScreen> cp; LSess(cli::Cli& cl, cli::Scheduler& q) : kb(q), s(cl, out, 10), cp(s, kb) { s.Enter(); s.Prompt(); } };
static Reg a8({"C30", "local", "two key-driven sessions on one scheduler (loop or asio): keys and lines queued for both in every order of up to the bound, one session destroyed after every number of tasks, the rest run: the other session is unaffected", {3, 4}, {4}, [](Ctx& c) {
    int ran[2] = {0, 0}; cli::Cli cl(make_unique<cli::Menu>("cli")); int who = 0; cl.WrongCommandHandler([&](ostream&, const string&) { ++ran[who]; });
    bool loop = c.choose(2, "loop scheduler"); cli::LoopScheduler ls; ASIOSCHED as; cli::Scheduler& q = loop ? static_cast<cli::Scheduler&>(ls) : as; auto one = [&] { return loop ? ls.PollOne() : as.AsioContext().poll_one() != 0; };
    unique_ptr<LSess> s[2]; for (auto& x : s) x = make_unique<LSess>(cl, q); string tr = loop ? "loop: " : "asio: ", exp; using K = cli::detail::KeyType; int total = 0;
    for (int i = 0; i < c.bound(); ++i) { unsigned k = c.choose(8, "input"); auto& kb = s[k / 4]->kb; tr += to_string(k / 4) + ":"; switch (k % 4) { case 0: kb.key(K::ascii, 'z'); ++total; tr += "z "; if (k / 4) exp += "z"; break; case 1: kb.key(K::ret); ++total; tr += "enter "; if (k / 4) exp += "\r\ncli> "; break; case 2: kb.key(K::up); ++total; tr += "up "; if (k / 4) exp += "?"; break; case 3: kb.key(K::eof); ++total; tr += "eof "; if (k / 4) exp += "?"; break; } }
    unsigned steps = c.choose(total + 1, "tasks first"); for (unsigned i = 0; i < steps; ++i) one(); s[0].reset(); tr += "destroyed after " + to_string(steps) + " tasks"; c.note(tr); c.step(); int n = 0; while (one() && n < 1000) ++n;
    string o = s[1]->out.str(); if (exp.find('?') == string::npos && o != "cli> " + exp) {
        c.fail(tr + ": the other session printed " + show(o) + ", expected " + show("cli> " + exp)); }
    s[1]->kb.key(K::ascii, 'q'); one(); if (exp.find('?') == string::npos && s[1]->out.str() != o + "q") c.fail(tr + ": the other session does not react"); c.state(hs(tr)); }});
// C31: one session of every kind on one Cli and one loop
struct Kinds {
    ARig r; unique_ptr<TELNETSRV> srv; End e; unique_ptr<LSess> k; ostringstream po, fo; unique_ptr<cli::CliSession> p; unsigned which;
    Kinds(Ctx& c, unsigned mask) : r(c), which(mask)
    {
        r.cl.WrongCommandHandler([](ostream& o, const string& l) { o << "wrong " << l << "\n"; });
        if (mask & 1) r.start();
        if (mask & 2) { srv = make_unique<TELNETSRV>(r.cl, *r.sch, 0); int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) abort(); e.cfd = sv[0]; e.sfd = sv[1]; ends()[e.sfd] = &e; auto s = srv->CreateSession(LASIO::ip::tcp::socket(r.sch->AsioContext(), LASIO::ip::tcp::v4(), sv[1])); s->Start(); }
        if (mask & 4) k = make_unique<LSess>(r.cl, *r.sch);
        if (mask & 8) { p = make_unique<cli::CliSession>(r.cl, po, 10); p->Enter(); p->Prompt(); }
        run();
    }
    void run() { r.run(); if (which & 2) e.pull(); r.run(); }
    void op(int who, unsigned o)
    {
        static const char* L[] = {"a", "s", "b", "history", "!0", "exit"}; using K = cli::detail::KeyType;
        if (o == 6) { switch (who) { case 0: r.put("x"); break; case 1: e.put("x"); break; case 2: k->kb.key(K::ascii, 'x'); break; } return; }
        if (o == 7) { switch (who) { case 1: e.put("\x1b[A"); break; case 2: k->kb.key(K::up); break; } return; }
        string l = L[o];
        switch (who) {
            case 0: r.put(l + "\n"); break;
            case 1: e.put(l + string("\r\0", 2)); break;
            case 2: for (char ch : l) k->kb.key(K::ascii, ch); k->kb.key(K::ret); break;
            case 3: p->Feed(l); p->Prompt(); break;
            case 4: { istringstream is(l + "\nb\n"); cli::CliFileSession f(r.cl, is, fo); f.Start(); break; }
        }
    }
    string text(int who) { switch (who) { case 0: return r.out.str(); case 1: return e.rx; case 2: return k->out.str(); case 3: return po.str(); default: return fo.str(); } }
    ~Kinds() { if (which & 2) { e.close_(); r.run(); srv.reset(); ends().clear(); } k.reset(); }
};
static Reg k1({"C31", "kinds", "an async, a telnet, a key-driven and a directly fed session of one Cli on one loop, and file sessions run in between: every sequence of the bound steps, each giving one of them a line out of {a, s (menu), b (in the menu), history, !0, exit}, a character or the up key, the loop run after every step or only at the end: each prints what it prints alone", {3}, {4}, [](Ctx& c) {
    static const char* N[] = {"async", "telnet", "keys", "fed", "file"}; static const char* O[] = {"a", "s", "b", "history", "!0", "exit", "x...", "up"}; bool each = c.choose(2, "run each"); vector<pair<int, unsigned>> ops; string tr = each ? "" : "at once: "; vector<unsigned> mine[5];
    for (int i = 0; i < c.bound(); ++i) { int w = c.choose(5, "session"); unsigned o = c.choose(w == 0 ? 7 : w < 3 ? 8 : 6, "operation"); if (w == 4 && (o == 3 || o == 4)) { c.prune(); return; } ops.push_back({w, o}); mine[w].push_back(o); tr += string(N[w]) + ":" + O[o] + " "; }
    string got[5]; { Kinds k(c, 15); for (auto& o : ops) { k.op(o.first, o.second); c.step(); if (each) k.run(); } k.run(); for (int w = 0; w < 5; ++w) got[w] = k.text(w); }
    static map<string, string> alone;
    for (int w = 0; w < 5; ++w) {
        string key(1, char('0' + w)); key += each ? "e" : "b"; for (unsigned o : mine[w]) key += char('0' + o); auto i = alone.find(key);
        if (i == alone.end()) { Kinds k(c, w < 4 ? 1u << w : 0); for (unsigned o : mine[w]) { k.op(w, o); if (each) k.run(); } k.run(); i = alone.emplace(key, k.text(w)).first; }
        if (got[w] != i->second) { c.fail(tr + ": the " + N[w] + " session printed " + show(got[w]) + ", alone it prints " + show(i->second)); break; }
    }
    c.note(tr); c.state(hs(got[0] + "|" + got[1] + "|" + got[2] + "|" + got[3])); }});

}
