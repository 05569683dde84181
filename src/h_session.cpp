// C17 enter/exit actions, C18 file sessions, C29 broadcast stream, C31 independence
#include "rig.h"
#include "nested_model.h"
#include "vt.h"
#include <cli/clifilesession.h>
#include <iomanip>
#include <stdexcept>
#include <cstring>
#include <optional>
#include <map>

// ---------------------------------------------------------------- C17
// What the actions write: "<GE>" global enter, "<SE>" session enter, "<SX>" session exit, "<GX>" global exit
struct Acts {
    bool ge, se, sx, gx; bool again;
    Acts(Ctx& c) { unsigned k = c.choose(16, "actions set"); ge = k & 1; se = k & 2; sx = k & 4; gx = k & 8; again = c.choose(2, "exit actions request exit again"); }
    string name() const { return string("[actions") + (ge ? " GE" : "") + (se ? " SE" : "") + (sx ? " SX" : "") + (gx ? " GX" : "") + (again ? " re-exit" : "") + "] "; }
};
static size_t count(const string& s, const string& w) { size_t n = 0; for (size_t p = s.find(w); p != string::npos; p = s.find(w, p + 1)) ++n; return n; }
// the output of one session: enter actions, then prompts, then exit actions
static string judge_actions(const string& o, const Acts& a, bool ended, const string& prompt)
{
    string head = string(a.ge ? "<GE>" : "") + (a.se ? "<SE>" : "") + prompt;
    if (o.compare(0, head.size(), head) != 0) return "output starts with " + show(o.substr(0, head.size() + 8)) + ", expected " + show(head);
    if (count(o, "<GE>") != a.ge || count(o, "<SE>") != a.se) return "enter actions run more than once: " + show(o);
    if (!ended) { if (count(o, "<SX>") + count(o, "<GX>")) return "exit action run without exit: " + show(o); return ""; }
    if (count(o, "<SX>") != a.sx || count(o, "<GX>") != a.gx) return "exit actions not run exactly once: " + show(o);
    string tail = string(a.sx ? "<SX>" : "") + (a.gx ? "<GX>" : "");
    size_t p = tail.empty() ? string::npos : o.find(tail);
    if (!tail.empty() && p == string::npos) return "exit actions out of order: " + show(o);
    if (p != string::npos && o.find(prompt, p) != string::npos) return "a prompt is shown after the exit: " + show(o.substr(p));
    return "";
}
static Reg x1({"C17", "file", "file sessions: every set of actions x every input of up to the bound lines out of {a, exit, s, quit (a handler that exits the session), twice (a handler that exits it twice), nope, blank}, with and without final newline, actions that ask for exit again", {2, 3, 4}, {3, 4}, [](Ctx& c) {
    Acts a(c); string tr = a.name(), in; static const vector<string> L = {"a", "exit", "s", "quit", "twice", "nope", ""};
    int n = c.choose(c.bound() + 1, "lines"); bool ended = true; for (int i = 0; i < n; ++i) { in += L[c.choose(L.size(), "line")]; if (i + 1 < n || c.choose(2, "final newline")) in += "\n"; }
    tr += show(in); cli::CliSession* sp = nullptr;
    auto root = make_unique<cli::Menu>("cli"); root->Insert("a", [](ostream& o) { o << "A\n"; }); auto sub = make_unique<cli::Menu>("s", "", "cli"); sub->Insert("b", [](ostream&) {}); root->Insert(move(sub));
    root->Insert("quit", [&](ostream&) { sp->Exit(); }); root->Insert("twice", [&](ostream&) { sp->Exit(); sp->Exit(); });
    cli::Cli cl(move(root)); ostringstream out, other; istringstream is(in);
    if (a.ge) cl.EnterAction([&](ostream& o) { o << "<GE>"; }); if (a.gx) cl.ExitAction([&](ostream& o) { o << "<GX>"; if (a.again) sp->Exit(); });
    cli::CliFileSession s(cl, is, out); sp = &s;
    if (a.se) s.EnterAction([&](ostream& o) { o << "<SE>"; }); if (a.sx) s.ExitAction([&](ostream& o) { o << "<SX>"; if (a.again) sp->Exit(); });
    s.Start(); c.step(n + 1); c.state(hs(tr));
    string e = judge_actions(out.str(), a, ended, "cli> "); if (!e.empty()) c.fail(tr + ": " + e);
    s.Exit(); e = judge_actions(out.str(), a, ended, "cli> "); if (!e.empty()) c.fail(tr + " then Exit(): " + e);
    c.note(tr + " " + show(out.str()));
}});
static Reg x2({"C17", "keys", "interactive sessions: every set of actions x every sequence of up to the bound events out of {type a, enter, EOF key, line 'exit', line 'quit', line 's', direct Exit(), clear}, handled one at a time or all queued before the first is handled", {2, 3, 4}, {4, 5}, [](Ctx& c) {
    Acts a(c); string tr = a.name(); bool batch = c.choose(2, "queued"); cli::SetNoColor(); cli::CliSession* sp = nullptr;
    auto root = make_unique<cli::Menu>("cli"); root->Insert("a", [](ostream& o) { o << "A\n"; }); auto sub = make_unique<cli::Menu>("s", "", "cli"); root->Insert(move(sub)); root->Insert("quit", [&](ostream&) { sp->Exit(); });
    cli::Cli cl(move(root)); ostringstream out; if (a.ge) cl.EnterAction([&](ostream& o) { o << "<GE>"; }); if (a.gx) cl.ExitAction([&](ostream& o) { o << "<GX>"; if (a.again) sp->Exit(); });
    QueueSched q; Kb kb(q); cli::CliSession s(cl, out, 4); sp = &s; if (a.se) s.EnterAction([&](ostream& o) { o << "<SE>"; }); if (a.sx) s.ExitAction([&](ostream& o) { o << "<SX>"; if (a.again) sp->Exit(); });
    cli::detail::CommandProcessor<cli::detail::TelnetScreen> cp(s, kb); s.Enter(); s.Prompt(); bool ended = false;
    string typed; auto type = [&](const char* l) { for (const char* p = l; *p; ++p) kb.key(ch(*p)); kb.key(RET); };
    bool insub = false; string pend; // text in the edit line
    for (int i = 0; i < c.bound(); ++i) {
        switch (c.choose(8, "event")) {
            case 0: kb.key(ch('a')); pend += "a"; tr += "a "; break;
            case 1: kb.key(RET); pend.clear(); tr += "enter "; break;
            case 2: kb.key(EOFK); ended = true; tr += "EOF "; break;
            case 3: type("exit"); if (pend.empty()) ended = true; pend.clear(); tr += "exit+enter "; break;
            case 4: type("quit"); if (pend.empty() && !insub) ended = true; pend.clear(); tr += "quit+enter "; break;
            case 5: type("s"); if (pend.empty()) insub = true; pend.clear(); tr += "s+enter "; break;
            case 6: if (batch) { c.prune(); return; } s.Exit(); ended = true; tr += "Exit() "; break;
            case 7: kb.key(CLEAR); tr += "clear "; break;
        }
        c.step(); if (!batch) q.drain();
        if (!batch) { string e = judge_actions(out.str(), a, ended, "cli> "); if (!e.empty()) { c.fail(tr + ": " + e); return; } c.state(hs(out.str(), ended)); }
    }
    if (batch) tr += "(queued) ";
    q.drain(); string e = judge_actions(out.str(), a, ended, "cli> "); if (!e.empty()) c.fail(tr + ": " + e); c.state(hs(out.str(), ended)); c.note(tr);
}});

static Reg x3({"C17", "many-sessions", "30 to 1000 sessions on one Cli, one after the other or all at once (file sessions and direct ones), ended by exit, end of input or Exit() twice: each runs the enter actions and the exit actions exactly once, on its own stream", {0}, {0, 1}, [](Ctx& c) {
    static const int N[] = {30, 100, 300, 1000}; int n = N[c.choose(c.bound() ? 4 : 3, "sessions")]; bool together = c.choose(2, "at once"); unsigned how = c.choose(3, "how they end"); Acts a(c); if (a.again) { c.prune(); return; } string tr = a.name() + to_string(n) + (together ? " sessions at once" : " sessions");
    auto root = make_unique<cli::Menu>("cli"); root->Insert("a", [](ostream& o) { o << "A\n"; }); cli::Cli cl(move(root)); if (a.ge) cl.EnterAction([](ostream& o) { o << "<GE>"; }); if (a.gx) cl.ExitAction([](ostream& o) { o << "<GX>"; });
    struct S { istringstream in; ostringstream out; unique_ptr<cli::CliFileSession> f; unique_ptr<cli::CliSession> s; }; vector<unique_ptr<S>> v;
    auto open = [&](int i) { v.push_back(make_unique<S>()); auto& x = *v.back(); cli::CliSession* p; if (i % 2) { x.in.str(how ? "a\n" : "a\nexit\n"); x.f = make_unique<cli::CliFileSession>(cl, x.in, x.out); p = x.f.get(); } else { x.s = make_unique<cli::CliSession>(cl, x.out); p = x.s.get(); } if (a.se) p->EnterAction([](ostream& o) { o << "<SE>"; }); if (a.sx) p->ExitAction([](ostream& o) { o << "<SX>"; }); if (x.s) { p->Enter(); p->Prompt(); } };
    auto close = [&](int i) { auto& x = *v[i]; if (x.f) x.f->Start(); else { x.s->Feed("a"); x.s->Prompt(); if (how == 0) { x.s->Feed("exit"); x.s->Prompt(); } else x.s->Exit(); } if (how == 2) { if (x.f) x.f->Exit(); else x.s->Exit(); } c.step(); string e = judge_actions(x.out.str(), a, true, "cli> "); if (!e.empty()) c.fail(tr + ", session " + to_string(i) + ": " + e); };
    if (together) { for (int i = 0; i < n; ++i) open(i); for (int i = 0; i < n && !c.failed(); ++i) close(n / 2 > i ? 2 * i : 2 * (i - n / 2) + 1); } else for (int i = 0; i < n && !c.failed(); ++i) { open(i); close(i); if (i % 3 == 0) { v[i]->f.reset(); v[i]->s.reset(); } }
    c.state(hs(tr, how)); c.note(tr); }, 120});

static Reg x4({"C17", "replaced-actions", "each of the four actions never set, set, set and then removed (by an empty function), or replaced by another one, in a file session, a key-driven session ended by the EOF key and one ended by Exit(): exactly the actions in force run", {0}, {0}, [](Ctx& c) {
    unsigned k[4]; static const char* N[] = {"GE", "SE", "SX", "GX"}; static const char* K[] = {"-", "", " removed", " replaced"}; string tr, exp[4]; for (int i = 0; i < 4; ++i) { k[i] = c.choose(4, "action"); tr += N[i] + string(K[k[i]]) + " "; exp[i] = k[i] == 1 ? string("<") + N[i] + ">" : k[i] == 3 ? string("<") + N[i] + "2>" : ""; } unsigned how = c.choose(3, "session"); tr += how == 0 ? "file" : how == 1 ? "EOF key" : "Exit()";
    cli::SetNoColor(); auto root = make_unique<cli::Menu>("cli"); root->Insert("a", [](ostream& o) { o << "A\n"; }); cli::Cli cl(move(root)); ostringstream out; istringstream in("a\nexit\n"); unique_ptr<cli::CliSession> s; cli::CliFileSession* f = nullptr; if (how == 0) { s = unique_ptr<cli::CliSession>(f = new cli::CliFileSession(cl, in, out)); } else s = make_unique<cli::CliSession>(cl, out);
    using A = function<void(ostream&)>; auto set = [&](int i, const A& a) { switch (i) { case 0: cl.EnterAction(a); break; case 1: s->EnterAction(a); break; case 2: s->ExitAction(a); break; case 3: cl.ExitAction(a); break; } };
    for (int i = 0; i < 4; ++i) if (k[i]) { string t = string("<") + N[i]; set(i, [t](ostream& o) { o << t << ">"; }); if (k[i] == 2) set(i, A()); else if (k[i] == 3) set(i, [t](ostream& o) { o << t << "2>"; }); }
    if (f) f->Start(); else { QueueSched q; Kb kb(q); cli::detail::CommandProcessor<cli::detail::TelnetScreen> cp(*s, kb); s->Enter(); s->Prompt(); kb.key(ch('a')); kb.key(RET); q.drain(); if (how == 1) { kb.key(EOFK); q.drain(); } else s->Exit(); s->Prompt(); }
    c.step(4); string g = out.str(), head = exp[0] + exp[1] + "cli> ", tail = exp[2] + exp[3];
    if (g.compare(0, head.size(), head)) c.fail(tr + ": starts with " + show(g) + ", expected " + show(head)); else if (g.size() < tail.size() || g.compare(g.size() - tail.size(), tail.size(), tail) || count(g, "<") != (k[0] % 2) + (k[1] % 2) + (k[2] % 2) + (k[3] % 2)) c.fail(tr + ": the session shows " + show(g) + ", expected to end with " + show(tail)); c.state(hs(tr)); c.note(tr + " " + show(g)); }});

static Reg x5({"C17", "several-clis", "two Clis with every set of global actions each, the first as built, move-constructed or move-assigned over another one; every sequence of up to the bound events (open a session of either, with or without actions of its own; a command in one; end one by exit or Exit()): every session shows exactly the actions of its own Cli and its own, once, in order", {3, 4}, {5}, [](Ctx& c) {
    string tr = "actions"; unsigned g[2]; vector<unique_ptr<cli::Cli>> cl; auto menu = [] { auto m = make_unique<cli::Menu>("cli"); m->Insert("a", [](ostream& o) { o << "A\n"; }); return m; };
    for (int k = 0; k < 2; ++k) { g[k] = c.choose(4, "global actions"); tr += " " + to_string(g[k]); cl.push_back(make_unique<cli::Cli>(menu())); string n = to_string(k); if (g[k] & 1) cl[k]->EnterAction([n](ostream& o) { o << "<GE" << n << ">"; }); if (g[k] & 2) cl[k]->ExitAction([n](ostream& o) { o << "<GX" << n << ">"; }); }
    unsigned mv = c.choose(3, "moved"); if (mv) { unique_ptr<cli::Cli> n; tr += mv == 1 ? ", moved" : ", assigned"; if (mv == 1) n = make_unique<cli::Cli>(move(*cl[0])); else { n = make_unique<cli::Cli>(menu()); n->EnterAction([](ostream& o) { o << "<old>"; }); n->ExitAction([](ostream& o) { o << "<old>"; }); *n = move(*cl[0]); } cl[0] = move(n); } tr += ": ";
    struct S { unique_ptr<ostringstream> o; unique_ptr<cli::CliSession> s; string want; bool open; int k; unsigned own; }; vector<S> v;
    for (int i = 0; i < c.bound(); ++i) {
        unsigned op = c.choose(4 + 3 * v.size(), "event"); c.step();
        if (op < 4) { int k = op % 2; unsigned own = op < 2 ? 0 : 3; S x{make_unique<ostringstream>(), nullptr, "", true, k, own}; x.s = make_unique<cli::CliSession>(*cl[k], *x.o, 3); string n = to_string(v.size()); tr += "session " + n + " of " + to_string(k) + (own ? " with actions; " : "; "); if (own) { x.s->EnterAction([n](ostream& o) { o << "<SE" << n << ">"; }); x.s->ExitAction([n](ostream& o) { o << "<SX" << n << ">"; }); } x.s->Enter(); x.s->Prompt(); if (g[k] & 1) x.want += "<GE" + to_string(k) + ">"; if (own) x.want += "<SE" + n + ">"; x.want += "cli> "; v.push_back(move(x)); }
        else { unsigned j = (op - 4) / 3; S& x = v[j]; string n = to_string(j); switch ((op - 4) % 3) { case 0: if (!x.open) { c.prune(); return; } x.s->Feed("a"); x.s->Prompt(); x.want += "A\ncli> "; tr += n + ": a; "; break; case 1: if (!x.open) { c.prune(); return; } x.s->Feed("exit"); x.s->Prompt(); tr += n + ": exit; "; break; case 2: x.s->Exit(); x.s->Prompt(); tr += n + ": Exit(); "; break; } if ((op - 4) % 3 && x.open) { x.open = false; if (x.own) x.want += "<SX" + n + ">"; if (g[x.k] & 2) x.want += "<GX" + to_string(x.k) + ">"; } }
        for (auto& x : v) { if (x.o->str() != x.want) { c.fail(tr + "a session of Cli " + to_string(x.k) + " shows " + show(x.o->str()) + ", expected " + show(x.want)); return; } c.state(hs(x.want, v.size())); }
    }
    c.note(tr); }});

// ---------------------------------------------------------------- C18
struct ByteBuf : streambuf {   // hands out one byte at a time; can throw after some bytes; counts what was taken
    string s; size_t taken = 0, limit; char cur;
    ByteBuf(string x, size_t l) : s(x), limit(l) {}
    int_type underflow() override { if (taken >= limit) throw runtime_error("input error"); if (taken >= s.size()) return traits_type::eof(); return traits_type::to_int_type(s[taken]); }
    int_type uflow() override { int_type r = underflow(); if (r != traits_type::eof()) ++taken; return r; }
};
struct FileOut { vector<string> exec; string out; size_t taken = 0; int exits = 0; };
static void file_case(Ctx& c, const string& in, const string& tr, bool bytewise, size_t limit, bool ownExit)
{
    // reference: the lines, up to and including the first one that ends the session
    vector<string> exp; size_t p = 0, prompts = 0, consumed = 0; bool ended = false, insub = false;
    string text = in.substr(0, min(limit, in.size())); bool broken = limit < in.size();
    while (!ended) {
        ++prompts;
        if (p >= text.size()) { consumed = text.size(); break; }
        size_t q = text.find('\n', p); string l;
        if (q == string::npos) { if (broken) { consumed = text.size(); break; } l = text.substr(p); p = text.size(); } else { l = text.substr(p, q - p); p = q + 1; }
        string t; for (char ch0 : l) if (!strchr(" \t\n", ch0) || !ch0 || !t.empty()) t += ch0; while (!t.empty() && t.back() && strchr(" \t\n", t.back())) t.pop_back();
        if (t == "exit") { ended = true; consumed = p; break; }
        if (t.empty()) continue;
        if (t == "s" && !insub) { insub = true; continue; }
        exp.push_back(t == "a" && !insub ? "A" : l);
    }
    vector<string> got; int ge = 0, gx = 0, sx = 0;
    auto root = make_unique<cli::Menu>("cli"); root->Insert("a", [&](ostream&) { got.push_back("A"); }); auto sub = make_unique<cli::Menu>("s", "", "cli"); sub->Insert("b", [&](ostream&) { got.push_back("B"); }); root->Insert(move(sub));
    root->Insert("t", [&](ostream&) { got.push_back("t"); throw runtime_error("x"); });
    cli::Cli cl(move(root)); cl.WrongCommandHandler([&](ostream&, const string& l) { got.push_back(l); }); cl.EnterAction([&](ostream&) { ++ge; }); cl.ExitAction([&](ostream&) { ++gx; });
    ostringstream out; istringstream is(in); ByteBuf bb(in, limit); istream bs(&bb); istream& i = bytewise ? bs : static_cast<istream&>(is);
    {
        cli::CliFileSession s(cl, i, out); if (ownExit) s.ExitAction([&](ostream&) { ++sx; });
        s.Start();
    }
    c.step(prompts);
    string o = out.str();
    if (got != exp) { c.fail(tr + ": executed " + showv(got) + ", expected " + showv(exp)); return; }
    if (count(o, "cli> ") != prompts) { c.fail(tr + ": " + to_string(count(o, "cli> ")) + " prompts, expected " + to_string(prompts)); return; }
    if (ge != 1 || gx != 1 || sx != (ownExit ? 1 : 0)) { c.fail(tr + ": enter/exit actions " + to_string(ge) + "/" + to_string(gx) + "/" + to_string(sx)); return; }
    if (bytewise && bb.taken != consumed) { c.fail(tr + ": took " + to_string(bb.taken) + " bytes of the input, expected " + to_string(consumed)); return; }
    if (!bytewise && ended) { i.clear(); string rest((istreambuf_iterator<char>(i)), istreambuf_iterator<char>()); if (rest != in.substr(consumed)) { c.fail(tr + ": input left after exit is " + show(rest)); return; } }
    c.state(hs(in, limit)); c.outcome(hs(showv(got), prompts));
}
static Reg f1({"C18", "texts", "every input text of up to the bound characters over {a, x, blank, newline, CR} from a string stream and from a stream delivering single bytes", {5, 6, 7}, {7, 8}, [](Ctx& c) {
    string in; int n = c.choose(c.bound() + 1, "length"); for (int i = 0; i < n; ++i) in += "ax \n\r"[c.choose(5, "character")]; bool b = c.choose(2, "bytewise");
    file_case(c, in, show(in) + (b ? " bytewise" : ""), b, string::npos, false); c.note(show(in)); }});
static Reg f2({"C18", "lines", "every sequence of up to the bound lines out of {a, exit, ' exit  ', exit 1, s, b, blank, x y, long, exitx}, with or without final newline, own exit action or not, string or byte stream", {2, 3, 4}, {4}, [](Ctx& c) {
    static const vector<string> L = {"a", "exit", " exit  ", "exit 1", "s", "", "x y", string(5000, 'z'), "exitx", string("n\0l", 3), "t1"};
    string in; int n = c.choose(c.bound() + 1, "lines"); for (int i = 0; i < n; ++i) { in += L[c.choose(L.size(), "line")]; if (i + 1 < n || c.choose(2, "final newline")) in += "\n"; }
    bool b = c.choose(2, "bytewise"), own = c.choose(2, "own exit action"); string tr = (in.size() > 200 ? "(" + to_string(in.size()) + " bytes) ..." + show(in.substr(in.size() - 60)) : show(in)) + (own ? " own exit action" : "");
    file_case(c, in, tr, b, string::npos, own); c.note(tr); }});
static Reg f3({"C18", "broken-input", "input streams that fail after every number of bytes", {2}, {3}, [](Ctx& c) {
    static const vector<string> L = {"a", "exit", "", "x y"}; string in; for (int i = 0; i < c.bound(); ++i) in += L[c.choose(L.size(), "line")] + "\n"; size_t lim = c.choose(in.size() + 1, "fails after"); bool own = c.choose(2, "own exit action");
    file_case(c, in, show(in) + " failing after " + to_string(lim), true, lim, own); c.note(show(in)); }});
static Reg f4({"C18", "bad-streams", "construction with input and output streams in every state", {1}, {1}, [](Ctx& c) {
    static const ios::iostate S[] = {ios::goodbit, ios::eofbit, ios::failbit, ios::badbit, ios::failbit | ios::eofbit, ios::badbit | ios::eofbit};
    unsigned a = c.choose(6, "input state"), b = c.choose(6, "output state"); cli::Cli cl(make_unique<cli::Menu>("cli")); istringstream is("help\n"); ostringstream os; is.clear(S[a]); os.clear(S[b]);
    bool thrown = false, other = false; try { cli::CliFileSession s(cl, is, os); } catch (const invalid_argument&) { thrown = true; } catch (...) { other = true; }
    bool want = a || b; c.step(); c.state(a * 6 + b); if (other || thrown != want) c.fail("input state " + to_string(a) + " output state " + to_string(b) + (thrown ? ": refused" : ": accepted or another exception"));
    // the streams' observers: the broadcast stream must not keep a refused session's output stream
    os.clear(); os.str(""); cli::Cli::cout() << "x" << flush; if (!os.str().empty()) c.fail("a session that is gone still receives the broadcast stream"); c.note("states"); }});

static Reg f5({"C18", "sizes", "inputs of that many lines (sizes around every power of two and round number up to the bound, and 5000, 20000, 70000; commands, refused lines, blank lines, mixed) or with one line that long (up to 1000000 characters), with and without exit before the end, string or byte stream", {0}, {0, 1}, [](Ctx& c) {
    static const unsigned big[] = {4095, 4096, 4097, 5000, 8191, 8192, 8193, 20000, 65535, 65536, 65537, 70000, 1000000}; auto& v = sizes(c.bound()); unsigned ix = c.choose(v.size() + 13, "size"); size_t n = ix < v.size() ? v[ix] : big[ix - v.size()]; unsigned kind = c.choose(6, "kind"), end = c.choose(3, "end"); bool b = c.choose(2, "bytewise");
    if (n > 70000 && kind < 4) { c.prune(); return; } if (n > 10000 && b && kind < 4) { c.prune(); return; }
    string in; string tr = to_string(n) + " kind " + to_string(kind) + " end " + to_string(end);
    if (kind < 4) for (size_t i = 0; i < n; ++i) in += kind == 0 ? "a\n" : kind == 1 ? "x" + to_string(i) + "\n" : kind == 2 ? "\n" : i % 3 == 0 ? "a\n" : i % 3 == 1 ? "  \n" : "y " + to_string(i) + "\n";
    else if (kind == 4) { string l(n, 'z'); for (size_t i = 0; i < n; i += 9) l[i] = 'A' + (i / 9) % 26; in = "a\n" + l + "\na\n" + l + " b\n"; }
    else in = "a\n" + string(n, ' ') + "a" + string(n, ' ') + "\n" + string(n, ' ') + "\na\n";
    if (end == 1) in += "exit\na\n"; else if (end == 2) in += "a";
    file_case(c, in, tr, b, string::npos, true); }, 120});

// ---------------------------------------------------------------- C29
static Reg o1({"C29", "broadcast", "every sequence of up to the bound operations on 3 session slots (two Clis): create, destroy, destroy the Cli, write a string / character / number / padded number / 255 byte / endl / block / nothing to the broadcast stream, write from a handler of a slot: content of every session's stream, living or dead", {5, 6}, {6, 7}, [](Ctx& c) {
    struct Slot { unique_ptr<ostringstream> o; unique_ptr<cli::CliSession> s; string exp; int cl = 0; };
    vector<Slot> sl(3); unique_ptr<cli::Cli> cl[2]; string tr;
    for (int k = 0; k < 2; ++k) { auto root = make_unique<cli::Menu>("r"); root->Insert("say", [](ostream&) { cli::Cli::cout() << "said" << 7 << '\n'; }); cl[k] = make_unique<cli::Cli>(move(root)); }
    for (auto& s : sl) s.o = make_unique<ostringstream>();
    auto bc = [&](const string& t) { for (auto& s : sl) if (s.s) s.exp += t; };
    for (int i = 0; i < c.bound(); ++i) {
        unsigned k = c.choose(3 + 7 + 1, "operation"); c.step();
        if (k < 3) {
            auto& s = sl[k];
            if (!s.s) { int w = k == 2; if (!cl[w]) { c.prune(); return; } s.s = make_unique<cli::CliSession>(*cl[w], *s.o); s.cl = w; tr += "new " + to_string(k) + "; "; }
            else switch (c.choose(2, "what")) {
                case 0: s.s.reset(); tr += "destroy " + to_string(k) + "; "; break;
                case 1: if (!cl[s.cl]) { c.prune(); return; } tr += "say in " + to_string(k) + "; "; bc("said7\n"); s.s->Feed("say"); break;
            }
        }
        else if (k == 10) { if (!cl[1]) { c.prune(); return; } cl[1].reset(); tr += "destroy Cli 2; "; }
        else switch (k - 3) {
            case 0: cli::Cli::cout() << "hello"; bc("hello"); tr += "<<string; "; break;
            case 1: cli::Cli::cout() << 'c'; bc("c"); tr += "<<char; "; break;
            case 2: cli::Cli::cout() << 1234 << -5; bc("1234-5"); tr += "<<numbers; "; break;
            case 3: cli::Cli::cout() << setw(6) << 42 << setfill('*') << setw(4) << "z" << setfill(' '); bc("    42***z"); tr += "<<padded; "; break;
            case 4: cli::Cli::cout().put('\xff').put('\0'); bc(string("\xff\0", 2)); tr += "put bytes; "; break;
            case 5: cli::Cli::cout() << "line" << endl << flush; bc("line\n"); tr += "<<endl; "; break;
            case 6: { string b(3000, 'b'); b[0] = '<'; b.back() = '>'; cli::Cli::cout().write(b.data(), b.size()); cli::Cli::cout() << ""; bc(b); tr += "write block; "; break; }
        }
        for (size_t j = 0; j < sl.size(); ++j) if (sl[j].o->str() != sl[j].exp) { c.fail(tr + "stream " + to_string(j) + " holds " + show(sl[j].o->str().substr(0, 200)) + ", expected " + show(sl[j].exp.substr(0, 200))); goto out; }
        { uint64_t h = 0; for (auto& s : sl) h = mix(h, mix(!!s.s, hs(s.exp))); c.state(mix(h, !!cl[1])); }
        if (!cli::Cli::cout().good()) { c.fail(tr + "the broadcast stream is in a failed state"); break; }
    }
out:
    c.note(tr);
    for (auto& s : sl) s.s.reset();
    cli::Cli::cout().clear();
}});
static Reg o2({"C29", "order", "4 sessions created in order, destroyed in every order, Cli destroyed at every point: after each step a write reaches exactly the living ones", {4}, {5}, [](Ctx& c) {
    int n = c.bound(); auto cl = make_unique<cli::Cli>(make_unique<cli::Menu>("r")); vector<unique_ptr<ostringstream>> o; vector<unique_ptr<cli::CliSession>> s; vector<string> exp(n); string tr;
    for (int i = 0; i < n; ++i) { o.push_back(make_unique<ostringstream>()); s.push_back(make_unique<cli::CliSession>(*cl, *o[i])); }
    int left = n;
    while (left > 0 && !c.failed()) {
        vector<int> al; for (int i = 0; i < n; ++i) if (s[i]) al.push_back(i);
        unsigned k = c.choose(al.size() + (cl ? 1 : 0), "destroy"); c.step();
        if (k < al.size()) { s[al[k]].reset(); --left; tr += "destroy " + to_string(al[k]) + "; "; } else { cl.reset(); tr += "destroy Cli; "; }
        cli::Cli::cout() << 'x' << "yz" << flush; for (int i = 0; i < n; ++i) if (s[i]) exp[i] += "xyz";
        for (int i = 0; i < n; ++i) if (o[i]->str() != exp[i]) c.fail(tr + "stream " + to_string(i) + " holds " + show(o[i]->str()) + ", expected " + show(exp[i]));
        c.state(hs(tr));
    }
    c.note(tr); }});
static Reg o3({"C29", "shared-stream", "2..3 sessions on the same stream, ended by exit or not and destroyed in every order: while any is alive the stream receives the text, no more often than there are living sessions, and exactly once when only one that has not been ended is left", {3}, {4}, [](Ctx& c) {
    int n = 2 + c.choose(c.bound() - 1, "sessions"); cli::Cli cl(make_unique<cli::Menu>("r")); ostringstream o; vector<unique_ptr<cli::CliSession>> s; for (int i = 0; i < n; ++i) s.push_back(make_unique<cli::CliSession>(cl, o)); string tr = to_string(n) + " sessions on one stream: ";
    while (!s.empty()) {
        unsigned k = c.choose(s.size(), "destroy"); if (c.choose(2, "exit first")) { s[k]->Feed("exit"); tr += "exit and "; } s.erase(s.begin() + k); tr += "destroy " + to_string(k) + "; "; o.str(""); cli::Cli::cout() << "msg\n"; c.step(); c.state(hs(tr));
        string g = o.str(); size_t m = count(g, "msg\n");
        if (s.empty() ? !g.empty() : (m < 1 || m > s.size() || g.size() != m * 4)) { c.fail(tr + "the stream received " + show(g)); break; }
        if (s.size() == 1 && m != 1) { c.fail(tr + "the stream received " + show(g)); break; }
    }
    c.note(tr); }});
static Reg o4({"C29", "troubled-streams", "3 sessions whose streams are, in every combination, sound / with a pending field width and fill / unbuffered / in a failed state / with a buffer that is full after 2 characters / with a buffer that refuses everything / without a buffer / with a buffer that throws / whose flush fails / whose flush throws, x every sequence of the bound writes out of {string, character, number, padded number, endl, block of 3000}: a stream that accepts the text gets it exactly, whatever the others do", {2}, {3}, [](Ctx& c) {
    struct Lim : streambuf { string s; size_t lim = ~size_t(0); bool throws = false; int_type overflow(int_type ch0) override { if (throws) throw runtime_error("device"); if (s.size() >= lim) return traits_type::eof(); s += traits_type::to_char_type(ch0); return traits_type::not_eof(ch0); } int bad_sync = 0; int sync() override { if (bad_sync == 2) throw runtime_error("flush"); return bad_sync ? -1 : 0; } };
    Lim b[3]; vector<unique_ptr<ostream>> o; vector<unique_ptr<cli::CliSession>> s; int kind[3]; string tr, exp; cli::Cli cl(make_unique<cli::Menu>("r")); static const char* N[] = {"sound", "width", "own buffer", "failed", "full", "refusing", "no buffer", "throwing", "flush fails", "flush throws"}; ostringstream so[3];
    for (int i = 0; i < 3; ++i) {
        kind[i] = c.choose(10, "stream"); tr += N[kind[i]] + string(" "); b[i].throws = kind[i] == 7; b[i].bad_sync = kind[i] >= 8 ? kind[i] - 7 : 0; if (kind[i] == 4) b[i].lim = 2; if (kind[i] == 5) b[i].lim = 0;
        if (kind[i] < 2) { o.push_back(make_unique<ostream>(so[i].rdbuf())); if (kind[i] == 1) { o[i]->width(7); o[i]->fill('#'); } } else { o.push_back(make_unique<ostream>(kind[i] == 6 ? nullptr : &b[i])); if (kind[i] == 3) o[i]->setstate(ios::failbit); }
        s.push_back(make_unique<cli::CliSession>(cl, *o[i]));
    }
    for (int n = 0; n < c.bound() && !c.failed(); ++n) {
        switch (c.choose(6, "write")) {
            case 0: cli::Cli::cout() << "hello"; exp += "hello"; tr += "<<string "; break;
            case 1: cli::Cli::cout().put('c'); exp += "c"; tr += "put "; break;
            case 2: cli::Cli::cout() << 1234; exp += "1234"; tr += "<<number "; break;
            case 3: cli::Cli::cout() << setw(4) << 7; exp += "   7"; tr += "<<padded "; break;
            case 4: cli::Cli::cout() << "l" << endl; exp += "l\n"; tr += "<<endl "; break;
            case 5: { string t(3000, 'b'); cli::Cli::cout() << t; exp += t; tr += "<<block "; break; }
        }
        c.step(); if (!cli::Cli::cout().good()) c.fail(tr + ": the broadcast stream is in a failed state");
        for (int i = 0; i < 3; ++i) { string g = kind[i] < 2 ? so[i].str() : b[i].s; if (kind[i] < 3 || kind[i] > 7 ? g != exp : kind[i] == 4 ? g != exp.substr(0, 2) : kind[i] >= 5 && !g.empty()) c.fail(tr + ": stream " + to_string(i) + " (" + N[kind[i]] + ") holds " + show(g.substr(0, 100)) + ", expected " + show(exp.substr(0, 100))); }
        c.state(hs(tr));
    }
    c.note(tr); s.clear(); cli::Cli::cout().clear(); cli::Cli::cout().width(0); }});

static Reg o6({"C29", "buffered", "3 sessions (one joining late, one leaving early) on streams that hold back what they are given until they are flushed, x every sequence of the bound writes out of {string, character, number, endl, flush, block}: what was flushed has come out of every living session's stream, complete and in order", {3, 4, 5}, {5}, [](Ctx& c) {
    struct Hold : streambuf { string held, s; int syncs = 0; int_type overflow(int_type x) override { held += traits_type::to_char_type(x); return traits_type::not_eof(x); } streamsize xsputn(const char* p, streamsize n) override { held.append(p, n); return n; } int sync() override { s += held; held.clear(); ++syncs; return 0; } };
    Hold b[3]; vector<unique_ptr<ostream>> o; unique_ptr<cli::CliSession> s[3]; string exp[3], flushed[3], tr; cli::Cli cl(make_unique<cli::Menu>("r")); int join = c.choose(c.bound() + 1, "joins"), leave = c.choose(c.bound() + 1, "leaves"); for (int i = 0; i < 3; ++i) { o.push_back(make_unique<ostream>(&b[i])); if (i) s[i] = make_unique<cli::CliSession>(cl, *o[i]); }
    auto all = [&](const string& t, bool fl) { for (int i = 0; i < 3; ++i) if (s[i]) { exp[i] += t; if (fl) flushed[i] = exp[i]; } };
    for (int n = 0; n < c.bound() && !c.failed(); ++n) {
        if (n == join) { s[0] = make_unique<cli::CliSession>(cl, *o[0]); tr += "(join) "; } if (n == leave) { s[2].reset(); tr += "(leave) "; }
        switch (c.choose(6, "write")) {
            case 0: cli::Cli::cout() << "hello"; all("hello", false); tr += "<<string "; break;
            case 1: cli::Cli::cout().put('c'); all("c", false); tr += "put "; break;
            case 2: cli::Cli::cout() << 1234; all("1234", false); tr += "<<number "; break;
            case 3: cli::Cli::cout() << "l" << endl; all("l\n", true); tr += "<<endl "; break;
            case 4: cli::Cli::cout().flush(); all("", true); tr += "flush "; break;
            case 5: { string t(3000, 'b'); cli::Cli::cout() << t; all(t, false); tr += "<<block "; break; }
        }
        c.step(); if (!cli::Cli::cout().good()) c.fail(tr + ": the broadcast stream is in a failed state");
        for (int i = 0; i < 3; ++i) { if (b[i].s + b[i].held != exp[i]) c.fail(tr + ": stream " + to_string(i) + " was given " + show((b[i].s + b[i].held).substr(0, 100)) + ", expected " + show(exp[i].substr(0, 100))); else if (b[i].s.size() < flushed[i].size()) c.fail(tr + ": the flush of the broadcast stream left " + show(b[i].held.substr(0, 100)) + " in stream " + to_string(i)); }
        c.state(hs(tr));
    }
    c.note(tr); cli::Cli::cout().clear(); }});
static Reg o5({"C29", "many", "2 to 300 sessions created, then destroyed in the order of creation, in reverse, every second or third first, the middle first, or replaced by new ones, with a write of up to 70000 characters after each step: the living receive it, the dead do not", {0}, {0, 1}, [](Ctx& c) {
    static const int N[] = {2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 64, 65, 100, 128, 129, 255, 256, 257, 300}; int n = N[c.choose(c.bound() ? 23 : 17, "sessions")]; unsigned ord = c.choose(6, "order"), what = c.choose(3, "write"); string tr = to_string(n) + " sessions, order " + to_string(ord) + ", write " + to_string(what);
    struct S { ostringstream o; unique_ptr<cli::CliSession> s; size_t exp = 0; }; cli::Cli cl(make_unique<cli::Menu>("r")); vector<unique_ptr<S>> v; auto add = [&] { v.push_back(make_unique<S>()); v.back()->s = make_unique<cli::CliSession>(cl, v.back()->o); }; for (int i = 0; i < n; ++i) add();
    string t = what == 0 ? "news" : what == 1 ? string(n * 7, 'n') : string(n > 40 ? 3000 : 70000, 'm'); vector<int> o; for (int i = 0; i < n; ++i) switch (ord) { case 0: case 5: o.push_back(i); break; case 1: o.push_back(n - 1 - i); break; case 2: o.push_back(2 * i < n + n % 2 ? 2 * i : 2 * (i - (n + 1) / 2) + 1); break; case 3: o.push_back(i * 7 % n); break; case 4: o.push_back((i + n / 2) % n); break; }
    for (int i = 0; i <= n && !c.failed(); ++i) {
        for (auto& x : v) x->o.str(""); cli::Cli::cout() << t << flush; c.step();
        for (size_t j = 0; j < v.size(); ++j) if (v[j]->o.str() != (v[j]->s ? t : string())) { c.fail(tr + ": after " + to_string(i) + " destructions session " + to_string(j) + (v[j]->s ? " (living)" : " (gone)") + " received " + show(v[j]->o.str().substr(0, 40)) + ", " + to_string(v[j]->o.str().size()) + " characters"); break; }
        if (i < n) { v[o[i]]->s.reset(); if (ord == 5 && i % 2 == 0) add(); }
    }
    c.state(hs(tr)); c.note(tr); v.clear(); cli::Cli::cout().clear(); }, 120});

// ---------------------------------------------------------------- C31
static void three(World& w) { w.add(-1, MENU, "r"); w.add(0, NOARG, "a"); w.add(0, STR, "ab"); int b = w.add(0, MENU, "b"); w.add(b, NOARG, "a"); w.add(b, NOARG, "bb"); w.build(); w.custom_wrong(); w.on_call = [&w](int id) { (void)w; (void)id; }; }
struct KS { ostringstream out; Kb kb; unique_ptr<cli::CliSession> s; unique_ptr<cli::detail::CommandProcessor<cli::detail::TelnetScreen>> cp;
    KS(cli::Cli& cl, cli::Scheduler& q, size_t h) : kb(q) { s = make_unique<cli::CliSession>(cl, out, h); cp = make_unique<cli::detail::CommandProcessor<cli::detail::TelnetScreen>>(*s, kb); s->Enter(); s->Prompt(); } };
static const vector<pair<const char*, vector<Key>>>& OPS()
{
    static vector<pair<const char*, vector<Key>>> o;
    if (o.empty()) {
        auto t = [](const char* s) { vector<Key> r; for (; *s; ++s) r.push_back(*s == '\n' ? RET : ch(*s)); return r; };
        o = {{"a", t("a")}, {"enter", t("\n")}, {"b+enter", t("b\n")}, {"up", {UP}}, {"..+enter", t("..\n")}, {"history+enter", t("history\n")}, {"TAB", {TAB}}, {"!0+enter", t("!0\n")}, {"exit+enter", t("exit\n")}, {"down", {DOWN}}, {"help+enter", t("help\n")}, {"left", {LEFT}}, {"EOF", {EOFK}}};
    }
    return o;
}
static void independent(Ctx& c, int ns, unsigned nops, int n)
{
    cli::SetNoColor(); string tr; vector<vector<unsigned>> done(ns);
    World w; three(w); w.cli->EnterAction([](ostream& o) { o << "welcome\n"; }); w.cli->ExitAction([](ostream& o) { o << "bye\n"; });
    QueueSched q; vector<unique_ptr<KS>> s; for (int i = 0; i < ns; ++i) s.push_back(make_unique<KS>(*w.cli, q, 4));
    vector<vector<string>> logs(ns);
    for (int i = 0; i < n; ++i) {
        unsigned k = c.choose(ns * nops, "session and operation"); int x = k / nops; auto& op = OPS()[k % nops]; tr += to_string(x) + ":" + op.first + " "; done[x].push_back(k % nops);
        w.log.clear(); w.wrong.clear(); w.expect_out = &s[x]->out; w.bad_out = false;
        for (auto key : op.second) s[x]->kb.key(key); q.drain(); c.step();
        for (auto& l : w.log) logs[x].push_back(l); for (auto& l : w.wrong) logs[x].push_back("wrong " + l);
        if (w.bad_out) { c.fail(tr + ": a handler received another session's stream"); return; }
    }
    for (int x = 0; x < ns; ++x) {
        World v; three(v); v.cli->EnterAction([](ostream& o) { o << "welcome\n"; }); v.cli->ExitAction([](ostream& o) { o << "bye\n"; });
        QueueSched q2; KS a(*v.cli, q2, 4); vector<string> lg;
        for (unsigned k : done[x]) { v.log.clear(); v.wrong.clear(); v.expect_out = &a.out; for (auto key : OPS()[k].second) a.kb.key(key); q2.drain(); for (auto& l : v.log) lg.push_back(l); for (auto& l : v.wrong) lg.push_back("wrong " + l); }
        if (a.out.str() != s[x]->out.str()) { c.fail(tr + ": session " + to_string(x) + " printed " + show(s[x]->out.str()) + ", alone it prints " + show(a.out.str())); return; }
        if (lg != logs[x]) { c.fail(tr + ": session " + to_string(x) + " ran " + showv(logs[x]) + ", alone it runs " + showv(lg)); return; }
        c.state(hs(a.out.str(), x));
    }
    c.note(tr);
}
static Reg i1({"C31", "two", "two sessions of one Cli, every interleaving of the bound operations out of {a, enter, b+enter, up, ..+enter, history, TAB, !0, exit, down, help, left, EOF}: output and effects of each compared with the same session alone", {3}, {4}, [](Ctx& c) { independent(c, 2, OPS().size(), c.bound()); }});
static Reg i2({"C31", "two-longer", "the same with the first 6 operations", {4}, {5}, [](Ctx& c) { independent(c, 2, 6, c.bound()); }});
static Reg i3({"C31", "three", "three sessions, the first 5 operations", {3, 4}, {5}, [](Ctx& c) { independent(c, 3, 5, c.bound()); }});
static Reg i4({"C31", "lifetimes", "sessions created, used and destroyed while others are in submenus and in the middle of a line: every sequence of the bound operations on 3 slots", {5}, {6}, [](Ctx& c) {
    cli::SetNoColor(); World w; three(w); QueueSched q; struct Sl { unique_ptr<KS> s; vector<unsigned> ops; vector<string> base; }; vector<Sl> sl(3); string tr; vector<string> store;
    for (int i = 0; i < c.bound(); ++i) {
        unsigned k = c.choose(3 * 4, "slot and operation"); auto& x = sl[k / 4]; unsigned op = k % 4; c.step();
        if (op == 0) { if (x.s) { x.s.reset(); tr += "destroy " + to_string(k / 4) + " "; } else { x.s = make_unique<KS>(*w.cli, q, 4); x.ops.clear(); tr += "new " + to_string(k / 4) + " "; } continue; }
        if (!x.s) { c.prune(); return; }
        static const unsigned M[] = {0, 1, 2, 3}; x.ops.push_back(M[op]); tr += to_string(k / 4) + ":" + OPS()[M[op]].first + " "; w.expect_out = &x.s->out;
        for (auto key : OPS()[M[op]].second) x.s->kb.key(key); q.drain();
    }
    for (auto& x : sl) if (x.s) {
        World v; three(v); QueueSched q2; KS a(*v.cli, q2, 4); for (unsigned k : x.ops) { v.expect_out = &a.out; for (auto key : OPS()[k].second) a.kb.key(key); q2.drain(); }
        if (a.out.str() != x.s->out.str()) { c.fail(tr + ": a session printed " + show(x.s->out.str()) + ", alone it prints " + show(a.out.str())); return; }
        c.state(hs(a.out.str()));
    }
    c.note(tr); }});
static Reg i5({"C31", "many", "2 to 300 sessions of one Cli, each given its own periodic sequence of 12 operations, in turn, in blocks or all of a kind: output and effects of each compared with the same session alone", {0}, {0, 1}, [](Ctx& c) {
    static const int N[] = {2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33, 40, 64, 65, 100, 128, 129, 256, 257, 300}; int ns = N[c.choose(c.bound() ? 20 : 15, "sessions")]; unsigned step = 1 + c.choose(4, "step"), order = c.choose(3, "order"); cli::SetNoColor(); const int K = 12; string tr = to_string(ns) + " sessions, step " + to_string(step) + ", order " + to_string(order);
    auto op = [&](int x, int i) { static const unsigned M[] = {0, 2, 0, 1, 3, 4, 6, 1, 5, 9, 10, 7, 11}; return M[(x * 5 + i * step) % 13]; };
    World w; three(w); w.cli->EnterAction([](ostream& o) { o << "welcome\n"; }); QueueSched q; vector<unique_ptr<KS>> s; for (int i = 0; i < ns; ++i) s.push_back(make_unique<KS>(*w.cli, q, 4)); vector<vector<string>> logs(ns);
    auto act = [&](int x, int i) { w.log.clear(); w.wrong.clear(); w.expect_out = &s[x]->out; w.bad_out = false; for (auto key : OPS()[op(x, i)].second) s[x]->kb.key(key); q.drain(); c.step(); for (auto& l : w.log) logs[x].push_back(l); for (auto& l : w.wrong) logs[x].push_back("wrong " + l); if (w.bad_out) c.fail(tr + ": a handler received another session's stream"); };
    if (order == 0) for (int i = 0; i < K; ++i) for (int x = 0; x < ns; ++x) act(x, i); else if (order == 1) for (int i = 0; i < K; i += 4) for (int x = ns - 1; x >= 0; --x) for (int j = i; j < i + 4; ++j) act(x, j); else for (int i = 0; i < K * ns; ++i) { int x = i * 7 % ns; if (ns % 7 == 0) x = i % ns; act(x, i / ns); }
    map<string, pair<string, vector<string>>> alone;
    for (int x = 0; x < ns && !c.failed(); ++x) {
        string key; for (int i = 0; i < K; ++i) key += char('a' + op(x, i)); auto& a = alone[key];
        if (a.first.empty()) { World v; three(v); v.cli->EnterAction([](ostream& o) { o << "welcome\n"; }); QueueSched q2; KS k(*v.cli, q2, 4); for (int i = 0; i < K; ++i) { v.log.clear(); v.wrong.clear(); v.expect_out = &k.out; for (auto kk : OPS()[op(x, i)].second) k.kb.key(kk); q2.drain(); for (auto& l : v.log) a.second.push_back(l); for (auto& l : v.wrong) a.second.push_back("wrong " + l); } a.first = k.out.str(); }
        if (a.first != s[x]->out.str()) c.fail(tr + ": session " + to_string(x) + " printed " + show(s[x]->out.str().substr(0, 300)) + ", alone it prints " + show(a.first.substr(0, 300)));
        else if (a.second != logs[x]) c.fail(tr + ": session " + to_string(x) + " ran " + showv(logs[x]) + ", alone it runs " + showv(a.second));
        c.state(hs(a.first, x));
    }
    c.note(tr); }, 120});
static Reg i6({"C31", "nested", NESTED_TEXT, {3}, {4, 5}, [](Ctx& c) { Nesting(c, c.bound()); }});
static Reg x1e({"C17", "exit-in-enter", "file sessions whose global or own enter action asks for exit (once or twice), every set of other actions, inputs of 0-2 lines: every action runs once, in order, no prompt is shown, no line is executed and nothing of the input is read", {0}, {0}, [](Ctx& c) {
    unsigned which = 1 + c.choose(3, "enter actions that exit"); bool twice = c.choose(2, "twice"), ge = which & 1 || c.choose(2, "global enter action"), se = which & 2 || c.choose(2, "session enter action"), sx = c.choose(2, "session exit action"), gx = c.choose(2, "global exit action"); static const char* IN[] = {"", "a", "a\n", "a\na\n", "exit\n"}; string text = IN[c.choose(5, "input")];
    string tr = string(which & 1 ? "global " : "") + (which & 2 ? "own " : "") + "enter action exits" + (twice ? " twice" : "") + ", input " + show(text); cli::SetNoColor(); cli::CliSession* sp = nullptr; int ran = 0; auto m = make_unique<cli::Menu>("r"); m->Insert("a", [&](ostream&) { ++ran; }); cli::Cli cl(move(m)); ostringstream out; istringstream in(text);
    auto leave = [&] { sp->Exit(); if (twice) sp->Exit(); };
    if (ge) cl.EnterAction([&](ostream& o) { o << "<GE>"; if (which & 1) leave(); }); if (gx) cl.ExitAction([&](ostream& o) { o << "<GX>"; });
    cli::CliFileSession s(cl, in, out); sp = &s; if (se) s.EnterAction([&](ostream& o) { o << "<SE>"; if (which & 2) leave(); }); if (sx) s.ExitAction([&](ostream& o) { o << "<SX>"; });
    s.Start(); c.step(); c.state(hs(out.str())); string x = string(sx ? "<SX>" : "") + (gx ? "<GX>" : ""), want = which & 1 ? "<GE>" + x + (se ? "<SE>" : "") : string(ge ? "<GE>" : "") + "<SE>" + x;
    if (out.str() != want) { c.fail(tr + ": output " + show(out.str()) + ", expected " + show(want)); return; } if (ran) { c.fail(tr + ": a line was executed"); return; } in.clear(); if (in.tellg() != streampos(0)) c.fail(tr + ": input was read"); c.note(tr); }});
