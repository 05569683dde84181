// C12 history browsing, C13 history ids and '!', C14 session history and storage, C15 storages
#include "mc.h"
#include "refhist.h"
#include <cli/cli.h>
#include <cli/clifilesession.h>
#include <cli/filehistorystorage.h>
#include <cli/volatilehistorystorage.h>
#include <sstream>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

using namespace std;
using namespace mc;

// ---------------------------------------------------------------- C12
static vector<string> shown(const cli::detail::History& h) { ostringstream o; h.Show(o); return parse_history(o.str()); }

static Reg a1({"C12", "history-ops", "the history object against the reference list: every sequence of up to the bound operations (enter a, enter b, enter the shown line, Up with the shown line, Up with an edited line, Down) for sizes 0..4 and 0..3 loaded commands; returned line, retained entries and ids compared after each",
    {5, 6, 7}, {6, 7, 8}, [](Ctx& c) {
        size_t size = c.choose(5, "size"); unsigned nl = c.choose(4, "loaded");
        cli::detail::History h(size); RefHistory r(size);
        vector<string> ld; for (unsigned i = 0; i < nl; ++i) ld.push_back(string(1, "lab"[i]));
        h.LoadCommands(ld); r.load(ld);
        string line, tr = "size " + to_string(size) + " loaded " + showv(ld) + ": ";
        for (int i = 0; i < c.bound(); ++i) {
            string g, e; bool cmp = true;
            switch (c.choose(6, "operation")) {
                case 0: h.NewCommand("a"); r.enter("a"); line = ""; cmp = false; tr += "enter a; "; break;
                case 1: h.NewCommand("b"); r.enter("b"); line = ""; cmp = false; tr += "enter b; "; break;
                case 2: if (line.empty()) { c.prune(); return; } tr += "enter " + line + "; "; h.NewCommand(line); r.enter(line); line = ""; cmp = false; break;
                case 3: tr += "up(" + line + "); "; g = h.Previous(line); e = r.up(line); break;
                case 4: tr += "up(" + line + "e); "; g = h.Previous(line + "e"); e = r.up(line + "e"); break;
                case 5: tr += "down; "; g = h.Next(); e = r.down(); break;
            }
            c.step();
            if (cmp) { if (g != e) { c.fail(tr + "shows " + show(g) + ", expected " + show(e)); return; } line = e; }
            c.state(mix(hs(showv(r.show())), mix(r.browsing, r.pos) + size * 31));
            if (r.browsing) continue; // what a listing shows then is not observable
            auto sg = shown(h);
            if (sg != r.show()) { c.fail(tr + "retains " + showv(sg) + ", expected " + showv(r.show())); return; }
            if (sg.size() > size) { c.fail(tr + "retains more than the maximum"); return; }
        }
        c.note(tr + showv(shown(h)));
    }});

static Reg a2({"C12", "session-browse", "the same through a session: PreviousCmd/NextCmd interleaved with fed lines (commands, blank lines, wrong commands, help)",
    {4, 5, 6}, {5, 6, 7}, [](Ctx& c) {
        size_t size = c.choose(4, "size");
        auto root = make_unique<cli::Menu>("r"); vector<string> log;
        for (const char* n : {"a", "b"}) root->Insert(n, [&log, n](ostream&) { log.push_back(n); });
        cli::Cli cl(move(root)); ostringstream o; cli::CliSession s(cl, o, size); RefHistory r(size);
        string line, tr = "size " + to_string(size) + ": ";
        for (int i = 0; i < c.bound(); ++i) {
            string g, e; bool cmp = false; auto feed = [&](const string& l, bool rec) { tr += "feed " + l + "; "; s.Feed(l); if (rec) r.enter(l); else r.blank(); line = ""; };
            switch (c.choose(8, "operation")) {
                case 0: feed("a", true); break; case 1: feed("b", true); break; case 2: feed("wrong x", true); break; case 3: feed("  ", false); break; case 4: feed("help", true); break;
                case 5: tr += "up; "; g = s.PreviousCmd(line); e = r.up(line); cmp = true; break;
                case 6: tr += "up edited; "; g = s.PreviousCmd(line + "z"); e = r.up(line + "z"); cmp = true; break;
                case 7: tr += "down; "; g = s.NextCmd(); e = r.down(); cmp = true; break;
            }
            c.step();
            if (cmp) { if (g != e) { c.fail(tr + "shows " + show(g) + ", expected " + show(e)); return; } line = e; }
            c.state(mix(hs(showv(r.show())), r.pos * 8 + r.browsing * 4 + size));
        }
        c.note(tr);
    }});

static Reg a3({"C12", "sizes", "history sizes around every power of two and round number up to the bound (and the default size of a session), loaded and entered commands fewer than, equal to and more than the size; Up past the oldest, Down past the newest, editing at the ends and in the middle, entering again: shown line, retained entries and ids compared after each step",
    {0}, {0, 1}, [](Ctx& c) {
        size_t size = size_choice(c); bool def = size == 100 && c.choose(2, "default size"); unsigned nl = c.choose(3, "loaded"), nn = c.choose(4, "entered"), rounds = 2;
        auto cl = make_unique<cli::Cli>(make_unique<cli::Menu>("r")); ostringstream o; cli::CliSession ds(*cl, o);   // default history size
        cli::detail::History h(size); RefHistory r(size);
        vector<string> ld; size_t L = nl == 0 ? 0 : nl == 1 ? size : size + 5; for (size_t i = 0; i < L; ++i) ld.push_back("l" + to_string(i));
        if (def) { if (L) { c.prune(); return; } }
        h.LoadCommands(ld); r.load(ld);
        string tr = "size " + to_string(size) + (def ? " (default session)" : "") + ", " + to_string(L) + " loaded: "; string line;
        auto show_now = [&] { if (def) { o.str(""); ds.ShowHistory(); return parse_history(o.str()); } return shown(h); };
        auto enter = [&](const string& s) { if (def) ds.Feed(s); else h.NewCommand(s); r.enter(s); c.step(); line = ""; };
        auto same = [&](const string& g, const string& e, const char* what, size_t k) { c.step(); line = e; if (g == e) return true; c.fail(tr + what + " number " + to_string(k) + " shows " + show(g) + ", expected " + show(e)); return false; };
        auto up = [&](const string& in, size_t k) { return same(def ? ds.PreviousCmd(in) : h.Previous(in), r.up(in), "Up", k); };
        auto down = [&](size_t k) { return same(def ? ds.NextCmd() : h.Next(), r.down(), "Down", k); };
        for (unsigned q = 0; q < rounds; ++q) {
            size_t n = nn == 0 ? size - 1 : nn == 1 ? size : nn == 2 ? size + 1 : 2 * size + 3; tr += to_string(n) + " entered; ";
            for (size_t i = 0; i < n; ++i) { enter("c" + to_string(q) + "_" + to_string(i)); if (i % 64 == 63 && show_now() != r.show()) { c.fail(tr + "retains " + showv(show_now()) + ", expected " + showv(r.show())); return; } }
            if (show_now() != r.show()) { c.fail(tr + "retains " + showv(show_now()) + ", expected " + showv(r.show())); return; }
            for (size_t k = 0; k < size + 3; ++k) if (!up(k == size / 2 ? line + "edited" : line, k)) return;
            for (size_t k = 0; k < size + 4; ++k) if (!down(k)) return;
            for (size_t k = 0; k < size / 2; ++k) if (!up(line, k)) return;
            string again = line; if (!again.empty() && again.find("edited") == string::npos) enter(again);
            if (!r.browsing && show_now() != r.show()) { c.fail(tr + "retains " + showv(show_now()) + ", expected " + showv(r.show())); return; }
            for (size_t k = 0; k < 3; ++k) if (!up(line, k)) return;
        }
        c.state(hs(tr)); c.note(tr);
    }, 120});
static Reg a4({"C12", "long-lines", "entered, loaded, edited and typed lines of every size of C12/sizes and up to 100000 characters, and many of them: recalled unchanged",
    {0}, {0, 1}, [](Ctx& c) {
        static const unsigned big[] = {4095, 4096, 4097, 65535, 65536, 65537, 100000};
        auto& v = sizes(c.bound()); unsigned ix = c.choose(v.size() + 7, "length"); size_t n = ix < v.size() ? v[ix] : big[ix - v.size()];
        cli::detail::History h(4); RefHistory r(4); string tr = "length " + to_string(n) + ": ";
        auto S = [&](char x, size_t k) { string s(k, x); for (size_t i = 0; i < k; i += 10) s[i] = 'A' + (i / 10) % 26; return s; };
        vector<string> ld = {S('l', n), S('m', n + 1)}; h.LoadCommands(ld); r.load(ld);
        h.NewCommand(S('a', n)); r.enter(S('a', n)); h.NewCommand(S('a', n) + "b"); r.enter(S('a', n) + "b");
        string line = S('t', n);
        for (int k = 0; k < 6; ++k) { string g = h.Previous(line), e = r.up(line); c.step(); if (g != e) { c.fail(tr + "Up " + to_string(k) + " shows another line"); return; } line = k == 2 ? e + S('e', n) : e; }
        for (int k = 0; k < 6; ++k) { string g = h.Next(), e = r.down(); c.step(); if (g != e) { c.fail(tr + "Down " + to_string(k) + " shows another line"); return; } }
        c.state(n);
    }});

// ---------------------------------------------------------------- C13
struct HS {
    vector<string> log; unique_ptr<cli::Cli> cl; ostringstream o; unique_ptr<cli::CliSession> s; int wrong = 0, errs = 0; shared_ptr<vector<vector<string>>> stored = make_shared<vector<vector<string>>>();
    struct Rec : cli::HistoryStorage {
        vector<string> c; size_t cap; shared_ptr<vector<vector<string>>> st;
        Rec(vector<string> i, shared_ptr<vector<vector<string>>> s) : c(i), st(s) {}
        void Store(const vector<string>& v) override { st->push_back(v); c.insert(c.end(), v.begin(), v.end()); }
        vector<string> Commands() const override { return c; }
        void Clear() override { c.clear(); }
    };
    HS(size_t size, const vector<string>& loaded)
    {
        auto root = make_unique<cli::Menu>("r");
        for (const char* n : {"a", "b"}) root->Insert(n, [this, n](ostream&) { log.push_back(n); });
        auto sub = make_unique<cli::Menu>("s"); sub->Insert("c", [this](ostream&, int v) { log.push_back("c" + to_string(v)); }); root->Insert(move(sub));
        root->Insert("t", [this](ostream&) { log.push_back("t"); throw runtime_error("t-failed"); });
        cl = make_unique<cli::Cli>(move(root), make_unique<Rec>(loaded, stored));
        cl->WrongCommandHandler([this](ostream&, const string&) { ++wrong; });
        cl->StdExceptionHandler([this](ostream&, const string&, const exception&) { ++errs; });
        s = make_unique<cli::CliSession>(*cl, o, size);
    }
    string feed(const string& l) { o.str(""); log.clear(); wrong = errs = 0; s->Feed(l); return o.str(); }
};
static bool isbang(const string& s) { return s.find('!') != string::npos; }
// effect of running a non-'!' line
static void effect(const string& t, vector<string>& log, int& wrong, int& errs)
{
    if (t == "a" || t == "b") log.push_back(t); else if (t == "s c 3") log.push_back("c3"); else if (t == "t") { log.push_back("t"); ++errs; }
    else if (t == "history" || t == "help") {} else ++wrong;
}

static Reg b1({"C13", "bang-sequences", "every sequence of up to the bound lines out of {a, b, t (throws), s c 3, x (wrong), history, !0..!6, ! 2, Up, Up edited to '!1', Down} for sizes 0..4 and 4 preloaded storages (also containing '!' lines): what '!' runs, what it records, what 'history' lists",
    {3, 4}, {4, 5}, [](Ctx& c) {
        static const vector<vector<string>> LD = {{}, {"b"}, {"a", "!0"}, {"!1", "!0", "a"}};
        size_t size = c.choose(5, "size"); auto ld = LD[c.choose(4, "preloaded")];
        HS h(size, ld); RefHistory r(size); r.load(ld);
        string line, tr = "size " + to_string(size) + " preloaded " + showv(ld) + ": ";
        for (int i = 0; i < c.bound(); ++i) {
            static const vector<string> F = {"a", "b", "history", "!0", "!1", "!2", "!3", "t", "s c 3", "x", "!4", "!5", "!6", "! 2", "!4294967295"};
            unsigned k = c.choose(F.size() + 3, "line");
            c.step();
            if (k >= F.size()) {
                k -= F.size(); string g, e, in = k == 1 ? "!1" : line;
                if (k == 2) { g = h.s->NextCmd(); e = r.down(); tr += "down; "; } else { g = h.s->PreviousCmd(in); e = r.up(in); tr += "up(" + in + "); "; }
                if (g != e) { c.fail(tr + "shows " + show(g) + ", expected " + show(e)); return; }
                line = e; continue;
            }
            string l = F[k]; line = ""; tr += l + "; ";
            string o = h.feed(l);
            vector<string> el; int ew = 0, ee = 0;
            if (l[0] != '!') {
                r.enter(l); effect(l, el, ew, ee);
                if (l == "history" && parse_history(o) != r.show()) { c.fail(tr + "history lists " + showv(parse_history(o)) + ", expected " + showv(r.show())); return; }
            } else {
                size_t id = strtoul(l.c_str() + 1, nullptr, 10);
                r.expand();
                auto* e = r.find(id);
                if (!e) { if (h.errs + h.wrong == 0 && o.empty()) { c.fail(tr + "an id that is not retained is not reported"); return; } if (!h.log.empty()) { c.fail(tr + "an id that is not retained executed " + showv(h.log)); return; } goto cmp; }
                string t = e->text;
                if (isbang(t)) { c.note(tr); return; }   // a '!' line in the history: only termination is specified
                if (t.empty()) r.blank(); else { r.enter(t); effect(t, el, ew, ee); }
                if (t == "history" && parse_history(o) != r.show()) { c.fail(tr + "history lists " + showv(parse_history(o)) + ", expected " + showv(r.show())); return; }
            }
            if (h.log != el || h.wrong != ew || h.errs != ee) { c.fail(tr + "ran " + showv(h.log) + " wrong " + to_string(h.wrong) + " errors " + to_string(h.errs) + ", expected " + showv(el) + " wrong " + to_string(ew) + " errors " + to_string(ee)); return; }
        cmp:
            { ostringstream q; h.o.str(""); h.s->ShowHistory(); auto g = parse_history(h.o.str()); if (!r.browsing && g != r.show()) { c.fail(tr + "retained entries are " + showv(g) + ", expected " + showv(r.show())); return; } c.state(mix(hs(showv(g)), size * 4 + r.browsing)); }
        }
        c.note(tr + showv(r.show()));
    }});

static Reg b2({"C13", "self-reference", "histories whose entries are '!' lines referring to themselves, to each other in cycles and chains, loaded from the storage: every pair of entry texts x every '!' line, twice; must terminate, run at most one command, and stay usable",
    {3, 4}, {4}, [](Ctx& c) {
        static const vector<string> T = {"a", "!0", "!1", "!2", "!3", "! 1", "s !0"};
        vector<string> ld; for (int i = 0; i < c.bound(); ++i) ld.push_back(T[c.choose(T.size(), "entry")]);
        for (size_t i = 1; i < ld.size(); ++i) if (ld[i] == ld[i - 1]) { c.prune(); return; }
        HS h(5, ld); RefHistory ref(5); ref.load(ld); string tr = showv(ld) + " ";
        for (int k = 0; k < 2; ++k) {
            unsigned id = c.choose(5, "id"); string l = "!" + to_string(id); tr += l + "; ";
            h.feed(l); c.step();
            if (h.log.size() > 1) { c.fail(tr + "ran " + showv(h.log)); return; }
            auto* e = k ? nullptr : ref.find(id);   // the first line: an entry that is an ordinary command must run
            if (e && e->text == "a" && h.log != vector<string>{"a"}) { c.fail(tr + "did not run the listed command"); return; }
            h.feed("b"); if (h.log != vector<string>{"b"}) { c.fail(tr + "session unusable afterwards"); return; }
        }
        c.note(tr);
    }});

static Reg b3({"C13", "many-commands", "sessions with the bound number of commands entered, history sizes 1, 3, 10, 100, 256 and 1000: the listing, '!' with the oldest, the newest and every retained id, with ids just outside, far outside, truncated to 8, 16 and 32 bits, negative and beyond the range of any integer",
    {300, 1300}, {70000}, [](Ctx& c) {
        static const size_t SZ[] = {1, 3, 10, 100, 256, 1000}; size_t size = SZ[c.choose(6, "size")]; unsigned odd = c.choose(2, "order");
        HS h(size, {}); RefHistory r(size); string tr = "size " + to_string(size) + ", " + to_string(c.bound()) + " commands: ";
        auto feed = [&](const string& l) { c.step(); return h.feed(l); };
        for (int i = 0; i < c.bound(); ++i) { string l = i % 3 == 0 ? "a" : i % 3 == 1 ? "s c " + to_string(i) : "x" + to_string(i); feed(l); r.enter(l); }
        auto listing = [&] { h.o.str(""); h.s->ShowHistory(); if (parse_history(h.o.str()) == r.show()) return true; auto g = parse_history(h.o.str()); c.fail(tr + "retained entries are " + showv(vector<string>(g.begin(), g.begin() + min<size_t>(g.size(), 5))) + "..., expected " + showv(r.show()).substr(0, 200)); return false; };
        if (!listing()) return;
        auto bang = [&](const string& id, bool valid) {
            string o = feed("!" + id); r.expand(); const RefHistory::E* e = valid ? r.find(stoull(id)) : nullptr;
            if (!e) { if (!h.log.empty()) c.fail(tr + "!" + id + " is not retained but executed " + showv(h.log)); else if (h.errs + h.wrong == 0 && o.empty()) c.fail(tr + "!" + id + " is not retained and not reported"); return !c.failed() && listing(); }
            string t = e->text; vector<string> el; int ew = 0; if (t == "a") el = {"a"}; else if (t.compare(0, 4, "s c ") == 0) el = {"c" + t.substr(4)}; else ew = 1;
            r.enter(t); if (h.log != el || h.wrong != ew) { c.fail(tr + "!" + id + " ran " + showv(h.log) + ", expected " + showv(el)); return false; }
            return true; };
        size_t first = r.e.front().id, last = r.e.back().id;
        for (auto id : {last + 1, last + 2, last + 1000, first ? first - 1 : last + 7, first >= 2 ? first - 2 : last + 8, size_t(0), first / 2}) if (!bang(to_string(id), true)) return;
        for (int bits : {8, 16, 31}) if (!bang(to_string((size_t(1) << bits) + last), true)) return;
        for (size_t k = 0; k < min<size_t>(size, 300); ++k) { size_t id = odd ? r.e.front().id + (r.e.back().id - r.e.front().id) * k / 300 : r.e.back().id - min(k, r.e.size() - 1); if (!bang(to_string(id), true)) return; }
        if (!listing()) return;
        // ids beyond the range of the command's parameter, and negative ones: refused like any malformed line
        vector<string> big = {"18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103232", "99999999999999999999999999", "-1", "-" + to_string(last)};
        for (int bits : {32, 33, 63}) { big.push_back(to_string(size_t(1) << bits)); big.push_back(to_string((size_t(1) << bits) + r.e.back().id)); }
        for (auto& id : big) { string o = feed("!" + id); if (!h.log.empty()) { c.fail(tr + "!" + id + " executed " + showv(h.log)); return; } if (h.errs + h.wrong == 0 && o.empty()) { c.fail(tr + "!" + id + " is not reported"); return; } }
        c.state(hs(tr, odd));
    }, 120});

static Reg b4({"C13", "stream-state", "sessions whose stream was left in any of 9 formatting states (hexadecimal, octal, with base, sign, left with a fill character, scientific, digits grouped by its locale or by the global one) by a command or by the owner, with 1..20, 300 or 1300 commands entered: every listed line's id, as printed, executes the command printed next to it", {1}, {1}, [](Ctx& c) {
    struct Grp : numpunct<char> { char do_thousands_sep() const override { return '.'; } string do_grouping() const override { return "\1"; } };
    static const char* N[] = {"plain", "hex", "oct", "hex with base, uppercase", "showpos", "left, fill", "scientific", "locale", "global locale"}; unsigned st = c.choose(9, "state"), who = c.choose(2, "set by"), ni = c.choose(22, "commands"); int n = ni < 20 ? ni + 1 : ni == 20 ? 300 : 1300;
    auto set = [&](ostream& o) { switch (st) { case 1: o << hex; break; case 2: o << oct; break; case 3: o << hex << showbase << uppercase; break; case 4: o << showpos; break; case 5: o << left; o.fill('0'); break; case 6: o << scientific << boolalpha; break; case 7: o.imbue(locale(locale::classic(), new Grp)); break; } };
    string tr = string(N[st]) + (who ? " set by a command, " : ", ") + to_string(n) + " commands: "; locale old; if (st == 8) old = locale::global(locale(locale::classic(), new Grp));
    { vector<string> log; ostringstream o; auto root = make_unique<cli::Menu>("r"); root->Insert("set", [&](ostream& x) { set(x); log.push_back("set"); }); root->Insert("c", [&](ostream&, string v) { log.push_back("c " + v); }); cli::Cli cl(move(root)); cli::CliSession s(cl, o, 3000);
      if (who) s.Feed("set"); else set(o);
      for (int i = 0; i < n; ++i) s.Feed("c " + to_string(i * 7 % 1000)); o.str(""); s.ShowHistory(); istringstream is(o.str()); string l; int lines = 0;
      while (getline(is, l) && !c.failed()) { auto t = l.find('\t'); if (t == string::npos) { if (!l.empty()) c.fail(tr + "unexpected line " + show(l)); continue; } ++lines; log.clear(); o.str(""); s.Feed("!" + l.substr(0, t)); c.step(); if (log != vector<string>{l.substr(t + 1)}) c.fail(tr + "listed as " + show(l) + ", but !" + l.substr(0, t) + " runs " + showv(log) + " and prints " + show(o.str())); }
      if (!c.failed() && lines != n + (who ? 1 : 0)) c.fail(tr + to_string(lines) + " entries listed"); }
    if (st == 8) locale::global(old);
    c.state(hs(tr)); c.note(tr); }});

// ---------------------------------------------------------------- C14
static vector<string> tail(vector<string> v, size_t n) { if (v.size() > n) v.erase(v.begin(), v.end() - n); return v; }

static Reg s1({"C14", "one-session", "one session on a recording storage with 0..3 preloaded commands and history size 0..4: every sequence of up to the bound lines out of {a, b, x (wrong), history, !0, !1, !2, Up, Down, blank} ended by exit command, direct exit or both; Store is called once with exactly the session's own retained commands",
    {4}, {5, 6}, [](Ctx& c) {
        static const vector<vector<string>> LD = {{}, {"a"}, {"b", "a"}, {"x", "x", "b"}};
        size_t size = c.choose(5, "size"); auto ld = LD[c.choose(4, "preloaded")];
        HS h(size, ld); RefHistory r(size); r.load(ld);
        string line, tr = "size " + to_string(size) + " preloaded " + showv(ld) + ": ";
        { h.o.str(""); h.s->ShowHistory(); auto g = parse_history(h.o.str()); vector<string> gt; for (auto& x : g) gt.push_back(x.substr(x.find('\t') + 1)); if (gt != tail(ld, size)) { c.fail(tr + "a new session starts with " + showv(gt) + ", expected " + showv(tail(ld, size))); return; } }
        static const vector<string> F = {"a", "b", "x", "history", "!0", "!1", "!2", "  "};
        for (int i = 0; i < c.bound(); ++i) {
            unsigned k = c.choose(F.size() + 2, "line"); c.step();
            if (k == F.size()) { string in = line; line = h.s->PreviousCmd(in); r.up(in); tr += "up; "; continue; }
            if (k == F.size() + 1) { line = h.s->NextCmd(); r.down(); tr += "down; "; continue; }
            string l = F[k]; tr += l + "; "; line = "";
            h.feed(l);
            if (l[0] == '!') { r.expand(); if (auto* e = r.find(l[1] - '0')) { string t = e->text; if (t.find_first_not_of(' ') == string::npos) r.blank(); else r.enter(t); } }
            else if (l != "  ") r.enter(l); else r.blank();
        }
        if (!h.stored->empty()) { c.fail(tr + "commands stored before the session ended"); return; }
        unsigned how = c.choose(4, "how it ends");
        if (how == 0 || how == 2) { h.feed("exit"); r.enter("exit"); tr += "exit; "; }
        if (how == 1 || how == 2) { h.s->Exit(); tr += "EOF; "; }
        if (how == 3) { h.s->Exit(); h.s->Exit(); tr += "EOF; EOF; "; }
        vector<vector<string>> st; for (auto& v : *h.stored) if (!v.empty()) st.push_back(v);
        auto own = r.own();
        if (h.stored->size() > 1 ? true : (own.empty() ? !st.empty() : (st.size() != 1 || st[0] != own))) {
            string g; for (auto& v : *h.stored) g += showv(v) + " ";
            c.fail(tr + "stored " + g + ", expected once " + showv(own)); return;
        }
        c.state(hs(tr)); c.outcome(hs(showv(own))); c.note(tr + "stores " + showv(own));
    }});

static Reg s2({"C14", "session-chains", "up to the bound sessions, sequential or overlapping, on one Cli with a bounded storage (size 0..4) and history size 0..4, each entering up to two commands out of {a, b, c}: storage content and every session's initial history",
    {2}, {3}, [](Ctx& c) {
        size_t cap = c.choose(5, "storage size"), size = c.choose(5, "history size");
        auto root = make_unique<cli::Menu>("r"); for (const char* n : {"a", "b", "c"}) root->Insert(n, [](ostream&) {});
        auto stp = make_unique<cli::VolatileHistoryStorage>(cap); auto* st = stp.get();
        cli::Cli cl(move(root), move(stp));
        vector<string> ref; string tr = "storage " + to_string(cap) + " history " + to_string(size) + ": ";
        struct S { unique_ptr<ostringstream> o; unique_ptr<cli::CliSession> s; RefHistory r; bool open = true; };
        vector<S> ss; int made = 0;
        auto endone = [&](size_t i) {
            bool cmd = c.choose(2, "exit or EOF"); tr += "end " + to_string(i) + (cmd ? " exit; " : " EOF; ");
            if (cmd) { ss[i].s->Feed("exit"); ss[i].r.enter("exit"); } else ss[i].s->Exit();
            ss[i].open = false; for (auto& x : ss[i].r.own()) ref.push_back(x); ref = tail(ref, cap);
            if (st->Commands() != ref) c.fail(tr + "storage holds " + showv(st->Commands()) + ", expected " + showv(ref));
            c.state(hs(showv(ref), cap * 5 + size));
        };
        while (!c.failed()) {
            vector<size_t> open; for (size_t i = 0; i < ss.size(); ++i) if (ss[i].open) open.push_back(i);
            if (made == c.bound() && open.empty()) break;
            unsigned nopt = (made < c.bound() ? 1 : 0) + open.size();
            unsigned k = c.choose(nopt, "new session or end one"); c.step();
            if (made < c.bound()) {
                if (k == 0) {
                    if (open.size() >= 2) { c.prune(); return; }
                    auto o = make_unique<ostringstream>(); auto s = make_unique<cli::CliSession>(cl, *o, size); RefHistory r(size); r.load(ref);
                    s->ShowHistory(); auto g = parse_history(o->str()); vector<string> gt; for (auto& x : g) gt.push_back(x.substr(x.find('\t') + 1));
                    tr += "new " + to_string(made) + ": ";
                    if (gt != tail(ref, size)) { c.fail(tr + "starts with history " + showv(gt) + ", expected " + showv(tail(ref, size))); return; }
                    unsigned n = c.choose(3, "commands"); for (unsigned j = 0; j < n; ++j) { string l(1, "abc"[c.choose(3, "command")]); s->Feed(l); r.enter(l); tr += l + "; "; }
                    ss.push_back({move(o), move(s), r}); ++made; continue;
                }
                --k;
            }
            endone(open[k]);
        }
        c.note(tr + showv(ref));
        ss.clear();
    }});

static Reg s3({"C14", "many-commands", "history sizes 1, 2, 100 (default), 256, 1000 x storages of the default size and of 1, 100, 256 and 1001 entries, volatile or recording: up to 14 consecutive sessions each entering fewer, as many or more commands than are retained, long commands included; every initial history and the content of the storage compared",
    {0}, {1}, [](Ctx& c) {
        static const size_t SZ[] = {1, 2, 100, 256, 1000}, CP[] = {1000, 1, 100, 256, 1001}; size_t size = SZ[c.choose(5, "history size")]; unsigned ci = c.choose(5, "storage size"); size_t cap = CP[ci];
        unsigned nn = c.choose(4, "commands per session"); size_t n = nn == 0 ? 1 : nn == 1 ? size - 1 : nn == 2 ? size : size + 7; unsigned mode = c.choose(3, "lines");
        auto root = make_unique<cli::Menu>("r"); root->Insert("a", [](ostream&, const vector<string>&) {});
        unique_ptr<cli::VolatileHistoryStorage> sp = ci ? make_unique<cli::VolatileHistoryStorage>(cap) : make_unique<cli::VolatileHistoryStorage>(); auto* st = sp.get();
        cli::Cli cl(move(root), move(sp)); vector<string> ref; string tr = "history " + to_string(size) + " storage " + to_string(cap) + ", " + to_string(n) + " commands per session: ";
        int sessions = c.bound() ? 14 : 5;
        for (int k = 0; k < sessions; ++k) {
            ostringstream o; auto s = size == 100 ? make_unique<cli::CliSession>(cl, o) : make_unique<cli::CliSession>(cl, o, size); RefHistory r(size); r.load(ref);
            s->ShowHistory(); auto g = parse_history(o.str()); vector<string> gt; for (auto& x : g) gt.push_back(x.substr(x.find('\t') + 1));
            if (gt != tail(ref, size)) { c.fail(tr + "session " + to_string(k) + " starts with " + to_string(gt.size()) + " commands that are not the last ones stored"); return; }
            for (size_t i = 0; i < n; ++i) { string l = mode == 0 ? "a " + to_string(k) + " " + to_string(i) : mode == 1 ? (i % 2 ? "a x" : "a y") : "a " + string(i * 37 % 3000, 'q') + to_string(k); s->Feed(l); r.enter(l); c.step(); }
            if (k % 2) { s->Feed("exit"); r.enter("exit"); } else s->Exit();
            for (auto& x : r.own()) ref.push_back(x); ref = tail(ref, cap);
            if (st->Commands() != ref) { c.fail(tr + "after session " + to_string(k) + " the storage holds " + to_string(st->Commands().size()) + " commands, not the expected " + to_string(ref.size())); return; }
            c.state(mix(hs(showv(ref)), k));
        }
        c.note(tr);
    }, 120});

static Reg s4({"C14", "several-clis", "two Clis, each with a storage of its own (the default one, a bounded one or a recording one), the first as built, move-constructed or move-assigned over another one; every sequence of up to the bound events (a session of either enters a command and ends by exit or end of input, or stays open and is ended later): each session starts with, and adds to, the storage of its own Cli",
    {3, 4}, {5}, [](Ctx& c) {
        struct RecSt : cli::HistoryStorage { vector<string> v; int stores = 0; void Store(const vector<string>& x) override { ++stores; v.insert(v.end(), x.begin(), x.end()); } vector<string> Commands() const override { return v; } void Clear() override { v.clear(); } };
        string tr; unique_ptr<cli::Cli> cl[2]; size_t cap[2]; vector<string> ref[2]; auto menu = [] { auto m = make_unique<cli::Menu>("r"); m->Insert("a", [](ostream&, const vector<string>&) {}); return m; };
        for (int k = 0; k < 2; ++k) { unsigned st = c.choose(3, "storage"); cap[k] = st == 1 ? 2 : 1000; tr += st == 0 ? "default storage; " : st == 1 ? "storage of 2; " : "recording storage; "; if (st == 0) cl[k] = make_unique<cli::Cli>(menu()); else if (st == 1) cl[k] = make_unique<cli::Cli>(menu(), make_unique<cli::VolatileHistoryStorage>(2)); else cl[k] = make_unique<cli::Cli>(menu(), make_unique<RecSt>()); }
        struct S { unique_ptr<ostringstream> o; unique_ptr<cli::CliSession> s; RefHistory r; int k; }; vector<S> open; int made = 0;
        auto start = [&](int k) { auto o = make_unique<ostringstream>(); auto s = make_unique<cli::CliSession>(*cl[k], *o, 5); RefHistory r(5); r.load(ref[k]); s->ShowHistory(); auto g = parse_history(o->str()); vector<string> gt; for (auto& x : g) gt.push_back(x.substr(x.find('\t') + 1)); auto want = tail(ref[k], 5); if (gt != want) c.fail(tr + "a session of Cli " + to_string(k) + " starts with " + showv(gt) + ", expected " + showv(want)); string l = "a " + to_string(made++); s->Feed(l); r.enter(l); open.push_back({move(o), move(s), r, k}); };
        auto end = [&](size_t i, bool cmd) { S x = move(open[i]); open.erase(open.begin() + i); if (cmd) { x.s->Feed("exit"); x.r.enter("exit"); } else x.s->Exit(); for (auto& y : x.r.own()) ref[x.k].push_back(y); ref[x.k] = tail(ref[x.k], cap[x.k]); };
        unsigned mv = c.choose(4, "moved"); // 3: after a session
        if (mv == 3) { start(0); end(0, false); tr += "a session of 0; "; }
        if (mv) { tr += mv == 2 ? "Cli 0 move-assigned; " : "Cli 0 move-constructed; "; unique_ptr<cli::Cli> n; if (mv == 2) { n = make_unique<cli::Cli>(menu(), make_unique<cli::VolatileHistoryStorage>(1)); ostringstream o; cli::CliSession s(*n, o); s.Feed("a old"); s.Exit(); } if (mv == 2) *n = move(*cl[0]); else n = make_unique<cli::Cli>(move(*cl[0])); cl[0] = move(n); }
        for (int i = 0; i < c.bound() && !c.failed(); ++i) {
            unsigned op = c.choose(6 + open.size(), "event"); c.step();
            if (op < 6) { int k = op % 2; tr += "session of " + to_string(k) + (op < 2 ? " ended by exit; " : op < 4 ? " ended by EOF; " : "; "); start(k); if (op < 4) end(open.size() - 1, op < 2); } else { tr += "end " + to_string(op - 6) + "; "; end(op - 6, true); }
            c.state(mix(hs(showv(ref[0])), hs(showv(ref[1]))));
        }
        while (!open.empty()) { end(0, false); }
        for (int k = 0; k < 2 && !c.failed(); ++k) { tr += "last session of " + to_string(k) + "; "; start(k); }
        c.note(tr);
        open.clear();
    }});

static Reg s5({"C14", "file-sessions", "two file sessions one after the other on a recording storage with 0..3 preloaded commands: every input of up to the bound lines out of {a, b, wrong, blank, history, '!' with the id of the latest command, exit}, with and without final newline: what is stored, once, is the end of the session's own commands; '!' runs the latest command, also a loaded one",
    {2, 3, 4}, {4}, [](Ctx& c) {
        static const vector<vector<string>> LD = {{}, {"a"}, {"b", "a"}, {"x", "x", "b"}}; auto have = LD[c.choose(4, "preloaded")]; string tr = "preloaded " + showv(have) + ": ";
        struct RecSt : cli::HistoryStorage { vector<string>& v; vector<vector<string>>& st; RecSt(vector<string>& a, vector<vector<string>>& b) : v(a), st(b) {} void Store(const vector<string>& x) override { st.push_back(x); v.insert(v.end(), x.begin(), x.end()); } vector<string> Commands() const override { return v; } void Clear() override { v.clear(); } };
        vector<string> log; vector<vector<string>> st; auto m = make_unique<cli::Menu>("r"); for (string n : {"a", "b"}) m->Insert(n, [&log, n](ostream&) { log.push_back(n); });
        cli::Cli cl(move(m), make_unique<RecSt>(have, st));
        for (int round = 0; round < 2 && !c.failed(); ++round) {
            RefHistory r(1000); r.load(have); log.clear(); st.clear(); vector<string> want; string in; bool ended = false; int n = c.choose(c.bound() + 1, "lines"); if (round && n > 1) { c.prune(); return; }
            for (int i = 0; i < n; ++i) {
                unsigned k = c.choose(7, "line"); string l; c.step();
                if (k == 5) { if (r.e.empty() || r.e.back().text == "history") { c.prune(); return; } l = "!" + to_string(r.e.back().id); string t = r.e.back().text; if (!ended) { r.enter(t); if (t == "a" || t == "b") want.push_back(t); if (t == "exit") ended = true; } }
                else { static const char* L[] = {"a", "b", "x", " ", "history", "", "exit"}; l = L[k]; if (!ended) { if (k == 3) r.blank(); else r.enter(l); if (k < 2) want.push_back(l); if (k == 6) ended = true; } }
                in += l; if (i + 1 < n || c.choose(2, "final newline")) in += "\n";
            }
            tr += show(in) + "; "; istringstream is(in); ostringstream o; { cli::CliFileSession s(cl, is, o); s.Start(); }
            if (log != want) { c.fail(tr + "ran " + showv(log) + ", expected " + showv(want)); return; }
            string bad = judge_stored(st, r.own()); if (!bad.empty()) { c.fail(tr + bad); return; }
            c.state(hs(tr)); c.outcome(hs(showv(r.own())));
        }
        c.note(tr);
    }});

// ---------------------------------------------------------------- C15
static string scratch() { static string d = "/tmp/mc_hist." + to_string(getpid()); mkdir(d.c_str(), 0700); return d; }
struct Clean { ~Clean() {} };

template <class MK> static void storage_ops(Ctx& c, MK mk, size_t cap, bool file, const string& path)
{
    static const vector<vector<string>> B = {{"a"}, {}, {"b", "b"}, {"a", "b", "c"}, {"d", "e", "f", "g", "h"}, {""}, {" x\t", "y\rz", "!1 \"q\" \\", string("n\0l", 3), "\xff\x80"}};
    vector<string> ref; string tr = "size " + to_string(cap) + ": ";
    unique_ptr<cli::HistoryStorage> s = mk(), s2; 
    auto cmp = [&](cli::HistoryStorage& x) { auto g = x.Commands(); if (g != ref) { c.fail(tr + "returns " + showv(g) + ", expected " + showv(ref)); return false; } c.state(hs(showv(g), cap)); return true; };
    if (!cmp(*s)) return;
    for (int i = 0; i < c.bound(); ++i) {
        unsigned k = c.choose(B.size() + 1 + (file ? 2 : 0), "operation"); c.step();
        if (k < B.size()) { auto& x = (s2 && i % 2) ? *s2 : *s; x.Store(B[k]); ref.insert(ref.end(), B[k].begin(), B[k].end()); ref = tail(ref, cap); tr += "store " + showv(B[k]) + "; "; }
        else if (k == B.size()) { s->Clear(); ref.clear(); tr += "clear; "; }
        else if (k == B.size() + 1) { s.reset(); s = mk(); tr += "restart; "; }
        else { s2 = mk(); tr += "second object; "; }
        if (!cmp(*s)) return;
        if (s2 && !cmp(*s2)) return;
        if (!cmp(*s)) return;
    }
    (void)path;
    c.note(tr + showv(ref));
}
static Reg t1({"C15", "volatile", "VolatileHistoryStorage: every sequence of up to the bound operations (7 batches, clear) for sizes 0..5", {4, 5}, {5, 6}, [](Ctx& c) {
    size_t cap = c.choose(6, "size"); storage_ops(c, [&] { return make_unique<cli::VolatileHistoryStorage>(cap); }, cap, false, ""); }});
static Reg t2({"C15", "file", "FileHistoryStorage: every sequence of up to the bound operations (7 batches with hostile bytes, clear, restart, a second object on the same file) for sizes 0..5, starting without a file", {3, 4}, {4}, [](Ctx& c) {
    size_t cap = c.choose(6, "size"); string p = scratch() + "/h"; unlink(p.c_str());
    storage_ops(c, [&]() -> unique_ptr<cli::HistoryStorage> { return make_unique<cli::FileHistoryStorage>(p, cap); }, cap, true, p);
    unlink(p.c_str()); rmdir(scratch().c_str()); }});
static Reg t3({"C15", "large", "both storages: batches around and far beyond the default size, long commands, many stores", {1}, {1}, [](Ctx& c) {
    bool file = c.choose(2, "file"); static const size_t caps[] = {1, 10, 999, 1000, 1001}; size_t cap = caps[c.choose(5)]; bool def = cap == 1000 && c.choose(2, "default size");
    string p = scratch() + "/g"; unlink(p.c_str());
    unique_ptr<cli::HistoryStorage> s;
    auto mk = [&]() { if (file) { if (def) s = make_unique<cli::FileHistoryStorage>(p); else s = make_unique<cli::FileHistoryStorage>(p, cap); } else { if (def) s = make_unique<cli::VolatileHistoryStorage>(); else s = make_unique<cli::VolatileHistoryStorage>(cap); } };
    mk(); vector<string> ref; static const size_t ns[] = {1, 999, 1000, 1001, 2500};
    for (int i = 0; i < 3 && !c.failed(); ++i) {
        size_t n = ns[c.choose(5, "batch")]; vector<string> v; for (size_t j = 0; j < n; ++j) v.push_back("cmd" + to_string(i) + "_" + to_string(j) + string(j % 50, 'x'));
        s->Store(v); ref.insert(ref.end(), v.begin(), v.end()); ref = tail(ref, cap); if (file) mk(); c.step();
        if (s->Commands() != ref) c.fail("after batches of " + to_string(n) + " with size " + to_string(cap) + ": " + to_string(s->Commands().size()) + " commands returned, expected " + to_string(ref.size()) + " (or different content)");
        c.state(mix(cap, n * 7 + i));
    }
    c.note("cap " + to_string(cap)); unlink(p.c_str()); rmdir(scratch().c_str());
}});
static Reg t4({"C15", "sizes", "both storages, capacities around every power of two and round number up to the bound: one command at a time, batches of the capacity less one, the capacity and one more, after a restart too; commands of that length", {0}, {0, 1}, [](Ctx& c) {
    size_t cap = size_choice(c); bool file = c.choose(2, "file"); unsigned mode = c.choose(3, "mode");
    string p = scratch() + "/s"; unlink(p.c_str()); unique_ptr<cli::HistoryStorage> s;
    auto mk = [&] { if (file) s = make_unique<cli::FileHistoryStorage>(p, cap); else s = make_unique<cli::VolatileHistoryStorage>(cap); };
    mk(); vector<string> ref; string tr = "capacity " + to_string(cap) + (file ? " file" : " volatile") + " mode " + to_string(mode);
    auto store = [&](const vector<string>& v) { s->Store(v); ref.insert(ref.end(), v.begin(), v.end()); if (ref.size() > cap) ref.erase(ref.begin(), ref.end() - cap); c.step(); };
    auto cmp = [&](const char* w) { auto g = s->Commands(); if (g == ref) return true; c.fail(tr + ": " + w + ": " + to_string(g.size()) + " commands returned, expected " + to_string(ref.size()) + " (or others)"); return false; };
    if (mode == 0) { size_t n = min<size_t>(cap + 3, 300); for (size_t i = 0; i < n; ++i) { store({"c" + to_string(i)}); if (i % 16 == 0 && !cmp("one by one")) return; } if (!cmp("one by one")) return; }
    else if (mode == 1) { for (size_t n : {cap - 1, cap, cap + 1, size_t(1), 2 * cap}) { vector<string> v; for (size_t i = 0; i < n; ++i) v.push_back("b" + to_string(n) + "_" + to_string(i)); store(v); if (!cmp("batch")) return; if (file) { mk(); if (!cmp("batch, restarted")) return; } } }
    else { for (size_t l : {cap - 1, cap, cap + 1, cap * 16, cap * 256}) { store({string(l, 'x') + "y", "z" + string(l, 'w')}); if (!cmp("long command")) return; if (file) { mk(); if (!cmp("long command, restarted")) return; } } s->Clear(); ref.clear(); if (!cmp("cleared")) return; store({string(cap, 'k')}); if (!cmp("after clear")) return; }
    c.state(hs(tr)); c.note(tr); unlink(p.c_str()); rmdir(scratch().c_str()); }, 120});
