// Handlers that feed lines to their own session, to another one, or to a file session of their own (scripts): C04, C31
#pragma once
#include "rig.h"
#include <cli/clifilesession.h>
#include <stdexcept>

struct Nesting
{
    Ctx& c; string tr; int budget; bool failed = false;
    struct S { cli::CliSession* s; ostream* out; int cur = 0; bool ended = false; int exits = 0; vector<string> lines; size_t next = 0; bool file = false; };
    vector<S*> all; S* two[2]; struct Want { string ev; ostream* out; bool seen; }; vector<Want> frames; vector<S*> who; int gx = 0, gx_want = 0;
    unique_ptr<cli::Cli> cl;
    void fail(const string& m) { if (!failed) c.fail(tr + ": " + m); failed = true; }
    // what a line does in a menu: 'a' handler a, 'b', 'c' (nesting), 't' (throws), 'w' wrong, 's' '.' navigation, 'x' exit, 0 nothing
    static char effect(const string& l, int cur)
    {
        if (l == "exit") return 'x';
        if (l == "") return 0;
        if (l == "c") return 'c';
        if (cur == 0) { if (l == "a") return 'a'; if (l == "t") return 't'; if (l == "s") return 's'; if (l == "s b") return 'b'; if (l == "s c") return 'c'; return 'w'; }
        if (l == "b") return 'b'; if (l == "..") return '.'; if (l == ".. c") return 'c'; if (l == ".. t") return 't'; return 'w';
    }
    static const vector<string>& lines() { static const vector<string> L = {"c", "s", "s c", "zz", "t", "..", "b", "exit", ".. c", "a", ""}; return L; }
    string ev(char e, const string& l) { return e == 'w' ? "wrong " + l : string("handler ") + e; }
    void begin(S& s, const string& l)   // a line is about to be executed: what must happen
    {
        char e = effect(l, s.cur); who.push_back(&s);
        frames.push_back({e == 'x' || e == 's' || e == '.' || !e ? "" : ev(e, l), s.out, false});
        if (e == 's') s.cur = 1; if (e == '.') s.cur = 0; if (e == 'x' && !s.ended) { s.ended = true; ++gx_want; }
    }
    void end(const string& l) { auto f = frames.back(); frames.pop_back(); who.pop_back(); if (!f.ev.empty() && !f.seen) fail("nothing happened for the line " + show(l) + ", expected " + f.ev); }
    void feed(S& s, const string& l) { tr += "[" + to_string(&s == two[0] ? 0 : &s == two[1] ? 1 : 2) + ":" + l; c.step(); begin(s, l); s.s->Feed(l); end(l); tr += "]"; prompts(); }
    void prompts()
    {
        for (int i = 0; i < 2; ++i) {
            auto& o = static_cast<ostringstream&>(*two[i]->out); string was = o.str(); o.str(""); two[i]->s->Prompt(); string p = o.str(); o.str(was); o.seekp(0, ios::end);
            string want = two[i]->ended ? "" : two[i]->cur ? "s> " : "r> "; if (p != want) fail("the prompt of session " + to_string(i) + " is " + show(p) + ", expected " + show(want));
        }
    }
    void happened(const string& e, ostream& o)
    {
        if (frames.empty() && who.empty()) { fail(e + " without a line"); return; }
        S* s = who.back();
        if (s->file && frames.back().ev == "file") { // the file session executes its lines itself: find the one that does something
            while (s->next < s->lines.size() && !s->ended) { string l = s->lines[s->next++]; char k = effect(l, s->cur); if (k == 's') s->cur = 1; else if (k == '.') s->cur = 0; else if (k == 'x') { s->ended = true; ++gx_want; } else if (k) { if (ev(k, l) != e) fail(e + " where the line " + show(l) + " of the script is due"); if (&o != s->out) fail(e + " of the script on another stream"); return; } }
            fail(e + ", but no line of the script is left"); return;
        }
        auto& f = frames.back(); if (f.seen) fail(e + " after the line was executed"); if (f.ev != e) fail(e + ", expected " + f.ev); if (&o != f.out) fail(e + " on another stream"); f.seen = true;
    }
    void finish_file(S& s) { while (s.next < s.lines.size() && !s.ended) { string l = s.lines[s.next++]; char k = effect(l, s.cur); if (k == 's') s.cur = 1; else if (k == '.') s.cur = 0; else if (k == 'x') { s.ended = true; ++gx_want; } else if (k) { fail("the line " + show(l) + " of the script was not executed"); return; } } }
    S& self() { return *who.back(); }
    void act(ostream& o)               // in a handler: anything
    {
        while (budget > 0 && !failed) {
            unsigned k = c.choose(4, "in the handler"); if (k == 0) return;
            --budget;
            if (k == 3) {
                S f; f.file = true; int n = 1 + (budget > 0 ? c.choose(2, "lines") : 0); string text; for (int i = 0; i < n; ++i) { f.lines.push_back(lines()[c.choose(lines().size() - 1, "line of the script")]); text += f.lines.back() + "\n"; } if (n > 1) --budget;
                bool own = c.choose(2, "script output"); ostringstream os; istringstream in(text); f.out = own ? &os : &o; tr += "[script " + show(text); c.step();
                { cli::CliFileSession fs(*cl, in, *f.out); f.s = &fs; fs.ExitAction([&](ostream& x) { ++f.exits; if (&x != f.out) fail("exit action of the script on another stream"); });
                who.push_back(&f); frames.push_back({"file", f.out, true}); fs.Start(); finish_file(f); frames.pop_back(); who.pop_back(); if (!f.ended) ++gx_want; if (f.exits != 1) fail("the exit action of the script ran " + to_string(f.exits) + " times"); }
                tr += "]"; prompts();
            } else {
                S* t = k == 1 ? &self() : two[0] == &self() ? two[1] : two[0];
                if (t->ended) { c.prune(); failed = true; return; }
                unsigned l = c.choose(lines().size(), "line"); if (t->file && frames.back().ev == "file") { // a line fed to the session that is executing a script
                }
                feed(*t, lines()[l]);
            }
        }
    }
    Nesting(Ctx& c, int n) : c(c), budget(n)
    {
        cli::SetNoColor(); auto m = make_unique<cli::Menu>("r"); auto h = [this](const char* e) { return [this, e](ostream& o) { happened(string("handler ") + e, o); if (*e == 'c' || *e == 't') act(o); if (*e == 't') throw runtime_error("boom"); }; };
        m->Insert("a", h("a")); m->Insert("c", h("c")); m->Insert("t", h("t")); auto s = make_unique<cli::Menu>("s"); s->Insert("b", h("b")); s->Insert("c", h("c")); m->Insert(move(s));
        cl = make_unique<cli::Cli>(move(m)); vector<string> ex;
        cl->WrongCommandHandler([this](ostream& o, const string& l) { happened("wrong " + l, o); });
        cl->StdExceptionHandler([&](ostream&, const string& l, const exception& e) { ex.push_back(l + ": " + e.what()); });
        cl->ExitAction([this](ostream&) { ++gx; });
        ostringstream o0, o1; cli::CliSession s0(*cl, o0, 10), s1(*cl, o1, 10); S a{&s0, &o0}, b{&s1, &o1}; two[0] = &a; two[1] = &b; s0.ExitAction([&](ostream&) { ++a.exits; }); s1.ExitAction([&](ostream&) { ++b.exits; });
        while (budget > 0 && !failed) {
            --budget; S& t = *two[c.choose(2, "session")]; if (t.ended) { c.prune(); return; }
            const string l = lines()[c.choose(lines().size(), "line")]; size_t before = ex.size(); char e = effect(l, t.cur); feed(t, l); if (failed) return;
            if (e == 't' && (ex.size() == before || ex.back() != l + ": boom")) fail("the exception of " + show(l) + " is not reported: " + showv(ex));
            if (e != 't' && e != 'c' && ex.size() != before) fail("exceptions " + showv(ex));
            if (gx != gx_want || a.exits != a.ended || b.exits != b.ended) fail("exit actions ran " + to_string(gx) + " (global), " + to_string(a.exits) + ", " + to_string(b.exits) + " times, expected " + to_string(gx_want) + ", " + to_string(a.ended) + ", " + to_string(b.ended));
            c.state(mix(a.cur + 2 * b.cur + 4 * a.ended + 8 * b.ended, budget));
        }
        if (o0.str() + o1.str() != "" && false) return;
        c.note(tr); c.outcome(gx * 16 + ex.size());
    }
};
#define NESTED_TEXT "two sessions of one Cli whose handlers feed lines to their own session, to the other one, or run a script of 1-2 lines in a file session of their own on the same Cli (to a stream of its own or the session's), before returning or throwing: every tree of up to the bound lines out of 11, nested to any depth: each line does what it does alone, once, on its session's stream; menus, prompts, exceptions and exit actions of all sessions are judged after every line"
