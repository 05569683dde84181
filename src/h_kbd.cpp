// C22, C23, C24: the local keyboard and the local session, under a controlled thread scheduler and a model of the terminal
#include "fib.h"
#include "refhist.h"
#include "vt.h"
#include <cli/cli.h>
#include <cli/clilocalsession.h>
#include <cli/loopscheduler.h>
#include <cstring>
#include <sstream>
#include <thread>
using namespace std;
using namespace mc;
using fib::Quiet;
namespace os = fib::os;
using cli::detail::KeyType;
using Key = pair<KeyType, char>;

namespace {
string kname(const Key& k) { static const char* n[] = {"char", "up", "down", "left", "right", "backspace", "delete", "home", "end", "enter", "eof", "ignored", "clear"}; string r = n[(int)k.first]; if (k.first == KeyType::ascii) r += " " + show(string(1, k.second)); return r; }
string knames(const vector<Key>& v) { string r; for (auto& k : v) r += (r.empty() ? "" : ", ") + kname(k); return "(" + r + ")"; }
// reference decoder
vector<Key> decode(const string& b, bool hangup)
{
    vector<Key> r; size_t i = 0; auto add = [&](KeyType t, char c = ' ') { r.push_back({t, c}); };
    while (i < b.size()) {
        unsigned char c = b[i++];
        if (c == 4) add(KeyType::eof);
        else if (c == 8 || c == 127) add(KeyType::backspace);
        else if (c == 10) add(KeyType::ret);
        else if (c == 12) add(KeyType::clear);
        else if (c != 27) add(KeyType::ascii, c);
        else {
            if (i == b.size()) break;
            if (b[i++] != '[') { add(KeyType::ignored); continue; }
            if (i == b.size()) break;
            switch (b[i++]) {
                case 'A': add(KeyType::up); break; case 'B': add(KeyType::down); break; case 'C': add(KeyType::right); break; case 'D': add(KeyType::left); break;
                case 'F': add(KeyType::end); break; case 'H': add(KeyType::home); break;
                case '3': if (i == b.size()) { i = b.size() + 1; break; } add(b[i++] == '~' ? KeyType::canc : KeyType::ignored); break;
                default: add(KeyType::ignored);
            }
        }
    }
    if (hangup) add(KeyType::eof);
    return r;
}
bool same(const Key& a, const Key& b) { return a.first == b.first && (a.first != KeyType::ascii || a.second == b.second); }
bool same_mode(const termios& a, const termios& b) { return !os::nonblocking() && a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && !memcmp(a.c_cc, b.c_cc, sizeof a.c_cc); }
bool manual(const termios& t) { return !(t.c_lflag & (ICANON | ECHO)); }
void post_mortem(const termios& m0, const string& tr, int threads)
{
    Quiet q;
    if (!same_mode(os::mode(), m0)) fib::fail("the terminal is not in the mode it had before (" + tr + ")");
    if (os::open_fds()) fib::fail(to_string(os::open_fds()) + " descriptors stay open (" + tr + ")");
    if (os::errors) fib::fail("an operation was made on a closed descriptor (" + tr + ")");
    if (fib::alive() > threads) fib::fail("the reader thread is still running (" + tr + ")");
}
struct Kb { cli::LoopScheduler s; unique_ptr<cli::detail::Keyboard> k; vector<Key> got; void open() { k = make_unique<cli::detail::Keyboard>(s); k->Register([this](Key x) { if (fib::held()) fib::fail("a key is delivered with a lock held"); Quiet q; got.push_back(x); }); } };

const string ALL = string("a\x1b[3~ABCDFHx \t") + '\n' + '\x7f' + '\x08' + '\x04' + '\x0c' + '\xc3' + string(1, '\0') + '\r';
const string ESC = "\x1b[3~Ax";
void decode_run(Ctx& c, const string& text, unsigned pauses, bool hang, int preempt, int eintr, bool early)
{
    auto want = decode(text, hang);
    string tr = show(text) + (hang ? " then end of input" : "") + ", pauses " + to_string(pauses);
    fib::go(c, preempt, [&] {
        os::eintr(eintr); termios m0 = os::mode(); if (text.size() > 64) fib::max_steps(20000 + 200 * text.size());
        if (early) { Quiet q; os::type(text.data(), text.size()); if (hang) os::hangup(); }
        thread user;
        {
            Kb k; k.open();
            if (!early) user = thread([&] {
                fib::name("user");
                for (size_t i = 0; i < text.size(); ++i) { { Quiet q; os::type(&text[i], 1); } if (pauses >> min<size_t>(i, 31) & 1) fib::idle(); else if (preempt) fib::point("typed"); }
                if (hang) { if (pauses >> text.size() & 1) fib::idle(); Quiet q; os::hangup(); }
            });
            for (size_t i = 0; i < want.size(); ++i) if (!k.s.ExecOne()) fib::fail("the scheduler stopped");
            fib::idle(); while (k.s.PollOne()) {}
            {
                Quiet q;
                bool ok = k.got.size() == want.size(); for (size_t i = 0; ok && i < want.size(); ++i) ok = same(k.got[i], want[i]);
                if (!ok) fib::fail("bytes " + tr + ": keys " + knames(k.got) + ", expected " + knames(want));
                if (os::left()) fib::fail("bytes " + tr + ": " + to_string(os::left()) + " bytes not read");
                if (hang && os::reads_after_eof() > 2) fib::fail("the end of input is read again and again");
                uint64_t h = hang; for (auto& x : want) h = mix(h, (int)x.first * 256 + (unsigned char)x.second); c.state(h); c.outcome(h);
            }
            if (user.joinable()) user.join();
        }
        post_mortem(m0, tr, 1);
    });
    c.note(tr + " -> " + knames(want));
}
Reg c22a({"C22", "every-byte", "every byte alone (0 to 255, except 255 which is unspecified), after ESC, after ESC [ and after ESC [ 3, followed by a further character, typed at once or with pauses anywhere, with and without end of input",
    {1}, {1}, [](Ctx& c) {
        static const char* P[] = {"", "\x1b", "\x1b[", "\x1b[3"}; string t = P[c.choose(4, "prefix")]; t += char(c.choose(255, "byte")); if (c.choose(2, "more")) t += "z";
        bool hang = c.choose(2, "end of input"); unsigned p = 0; for (size_t i = 0; i < t.size() + hang; ++i) p |= c.choose(2, "pause") << i;
        decode_run(c, t, p, hang, 0, 0, c.choose(2, "typed before the start") && !p);
    }});
Reg c22b({"C22", "sequences", "every sequence up to the bound of bytes from the alphabet of keys and escape sequence parts, with a pause anywhere or nowhere, with and without end of input",
    {1, 2, 3}, {4}, [](Ctx& c) {
        string t; for (int i = 0; i < c.bound(); ++i) t += ALL[c.choose(ALL.size(), "byte")];
        bool hang = c.choose(2, "end of input"); unsigned p = c.bound() > 3 ? (c.choose(2, "pauses") ? ~0u : 0) : 0; if (c.bound() <= 3) for (size_t i = 0; i < t.size() + hang; ++i) p |= c.choose(2, "pause") << i;
        decode_run(c, t, p, hang, 0, 0, false);
    }});
Reg c22c({"C22", "escape-sequences", "every sequence up to the bound of bytes from ESC [ 3 ~ A x, with a pause anywhere or nowhere",
    {4, 5}, {6, 7}, [](Ctx& c) {
        string t; for (int i = 0; i < c.bound(); ++i) t += ESC[c.choose(ESC.size(), "byte")];
        bool hang = c.choose(2, "end of input"); unsigned n = c.choose(t.size() + 3, "pause"), p = n == 0 ? 0 : n == 1 ? ~0u : 1u << (n - 2);
        decode_run(c, t, p, hang, 0, 0, false);
    }});
Reg c22d({"C22", "interleavings-and-signals", "every interleaving (up to the preemption bound) of the typing user, the reader thread and the session, with up to two system calls interrupted by signals, with and without end of input",
    {0, 1, 2}, {2, 3}, [](Ctx& c) {
        static const vector<string> T = {"ab", "a\x1b[A", "\x1b[3~b", "\x1b", "\x1b[", "\x1b[3", "a\n\x04", "\x1bxy", ""};
        auto& t = T[c.choose(T.size(), "text")]; bool hang = c.choose(2, "end of input"); if (t.empty() && !hang) { c.prune(); return; }
        int e = c.choose(3, "interruptions"); unsigned p = c.choose(2, "pauses") ? ~0u : 0;
        decode_run(c, t, p, hang, c.bound(), e, false);
    }});

Reg c22m({"C22", "many", "n keys typed at once, one by one or before the start (n around the powers of two up to the bound): characters, escape sequences, both in turn",
    {0}, {1}, [](Ctx& c) {
        size_t n = size_choice(c); static const vector<vector<string>> K = {{"a"}, {"\x1b[A"}, {"a", "\x1b[3~", "\xc3"}, {"\n"}}; auto& k = K[c.choose(K.size(), "keys")]; unsigned p = c.choose(3, "typed"); bool hang = c.choose(2, "end of input");
        string t; for (size_t i = 0; i < n; ++i) t += k[i % k.size()]; decode_run(c, t, p == 1 ? ~0u : 0, hang, 0, 0, p == 2);
    }});

Reg c22p({"C22", "key-presses", "every sequence of up to the bound key presses (Enter, letters, a byte above 127, escape sequences, backspace, ...) as they come through the terminal's line discipline in the mode the session gave it, one by one or without waiting: Enter gives the Enter key, every other one its own",
    {1, 2, 3, 4}, {5}, [](Ctx& c) {
        static const vector<pair<string, Key>> P = {{"\r", {KeyType::ret, ' '}}, {"a", {KeyType::ascii, 'a'}}, {"\xc3", {KeyType::ascii, '\xc3'}}, {"\x1b[A", {KeyType::up, ' '}}, {"\x1b[3~", {KeyType::canc, ' '}}, {"\x7f", {KeyType::backspace, ' '}}, {"\t", {KeyType::ascii, '\t'}}, {"\x04", {KeyType::eof, ' '}}, {"\x0c", {KeyType::clear, ' '}}};
        vector<unsigned> in; for (int i = 0; i < c.bound(); ++i) in.push_back(c.choose(P.size(), "key")); bool slow = c.choose(2, "one by one"); unsigned toggle = c.choose(c.bound() + 1, "input deactivated and activated again before");
        string tr; vector<Key> want; for (unsigned k : in) { tr += show(P[k].first) + " "; want.push_back(P[k].second); }
        fib::go(c, 0, [&] {
            termios m0 = os::mode();
            {
                os::discipline(true); Kb k; k.open();
                for (size_t i = 0; i < in.size(); ++i) { if (toggle == i + 1) { k.k->DeactivateInput(); k.k->ActivateInput(); } { Quiet q; string e = os::press(P[in[i]].first.data(), P[in[i]].first.size()); if (!e.empty()) fib::fail("the terminal echoes what the session echoes as well (" + tr + ")"); } if (slow) { fib::idle(); while (k.s.PollOne()) {} Quiet q; if (k.got.size() != i + 1) fib::fail("key presses " + tr + ": after " + to_string(i + 1) + ", keys " + knames(k.got)); } }
                fib::idle(); while (k.s.PollOne()) {}
                Quiet q; bool ok = k.got.size() == want.size(); for (size_t i = 0; ok && i < want.size(); ++i) ok = same(k.got[i], want[i]);
                if (!ok) fib::fail("key presses " + tr + ": keys " + knames(k.got) + ", expected " + knames(want)); c.state(hs(tr)); c.outcome(hs(knames(k.got)));
            }
            post_mortem(m0, tr, 1);
        });
        c.note(tr);
    }});

// ---------------------------------------------------------------- C23
struct Loc { // a local session
    cli::LoopScheduler s; ostringstream out; unique_ptr<cli::Cli> cl; unique_ptr<cli::CliLocalTerminalSession> l; vector<string> log; function<void()> in_handler;
    Loc()
    {
        auto m = make_unique<cli::Menu>("cli"); m->Insert("a", [this](ostream& o) { { Quiet q; log.push_back("a"); } o << "A\n"; if (in_handler) in_handler(); }); m->Insert("b", [this](ostream&) { Quiet q; log.push_back("b"); });
        m->Insert("t", [this](ostream&) { { Quiet q; log.push_back("t"); } if (in_handler) in_handler(); throw runtime_error("x"); });
        m->Insert("stop", [this](ostream&) { { Quiet q; log.push_back("stop"); } s.Stop(); });
        cl = make_unique<cli::Cli>(move(m)); cl->ExitAction([this](ostream&) { Quiet q; log.push_back("exit"); });
    }
    void open() { l = make_unique<cli::CliLocalTerminalSession>(*cl, s, out); }
};
const vector<string>& partials() { static const vector<string> v = {"", "x", "\x1b", "\x1b[", "\x1b[3", "a\n", "ab\x1b[A", "\x04", "a\na\n", "exit\n"}; return v; }
termios initial_mode(unsigned k) { termios t = os::mode(); if (k == 1) t.c_lflag &= ~ECHO; if (k == 2) { t.c_lflag &= ~(ICANON | ECHO); t.c_cc[VMIN] = 0; t.c_cc[VTIME] = 5; } if (k == 3) t.c_lflag &= ~ICANON; return t; }
Reg c23a({"C23", "keyboard", "every interleaving (up to the preemption bound) of the reader thread, a typing user and the construction, activation changes, steps and destruction of a keyboard, for every partial input and initial terminal mode, with end of input and interrupted system calls",
    {0, 1, 12}, {2, 13}, [](Ctx& c) { // 1n: n preemptions, fewer configurations
        bool full = c.bound() < 10; string t = partials()[c.choose(full ? partials().size() : 5, "typed")]; bool hang = c.choose(2, "end of input"); unsigned mode = c.choose(full ? 4 : 1, "initial mode");
        unsigned acts = c.choose(6, "activation changes"), steps = c.choose(full ? 3 : 1, "steps"), wait = c.choose(3, "wait"), e = full ? c.choose(2, "interruptions") : 0;
        fib::go(c, c.bound() % 10, [&] {
            os::eintr(e); os::set_mode(initial_mode(mode)); termios m0 = os::mode(); bool by_user = wait == 2;
            thread user; auto typing = [&] { Quiet q; os::type(t.data(), t.size()); if (hang) os::hangup(); };
            {
                Kb k; k.open(); if (!manual(os::mode())) fib::fail("the terminal is not in manual mode while the session reads");
                if (by_user) user = thread([&] { fib::name("user"); typing(); }); else typing();
                if (wait == 1) fib::idle();
                static const char* A[] = {"", "d", "da", "dd", "ddaa", "dada"};   // nested when a handler polls the scheduler
                for (const char* p = A[acts]; *p; ++p) { if (*p == 'd') k.k->DeactivateInput(); else k.k->ActivateInput(); bool want = *p == 'a'; if (acts == 4 && want && p[1]) continue; if (want ? !manual(os::mode()) : !same_mode(os::mode(), m0)) fib::fail("wrong terminal mode after " + string(A[acts], p + 1)); }
                for (unsigned i = 0; i < steps; ++i) k.s.PollOne();
                k.k.reset(); size_t n; { Quiet q; n = k.got.size(); }
                while (k.s.PollOne()) {}
                Quiet q; if (k.got.size() != n) fib::fail("a key was delivered after the destruction of the keyboard");
            }
            if (user.joinable()) user.join();
            Quiet q; post_mortem(m0, show(t), 1);
            c.outcome(mix(os::taken(), os::left()));
        });
    }});
Reg c23b({"C23", "session", "every interleaving (up to the preemption bound) of the reader thread, a typing user and a scheduler thread that builds a local session, makes a number of steps and destroys it, twice in a row",
    {0, 1, 12}, {2, 13}, [](Ctx& c) {
        bool full = c.bound() < 10; string t = partials()[c.choose(full ? partials().size() : 6, "typed")]; bool hang = c.choose(2, "end of input"); unsigned steps = c.choose(full ? 5 : 3, "steps"), again = full ? c.choose(2, "second session") : 0;
        fib::go(c, c.bound() % 10, [&] {
            termios m0 = os::mode(); thread user;
            {
                Loc w; w.open(); user = thread([&] { fib::name("user"); for (char x : t) { Quiet q; os::type(&x, 1); } Quiet q; if (hang) os::hangup(); });
                fib::point("built"); for (unsigned i = 0; i < steps; ++i) { if (!w.s.PollOne()) fib::idle(); }
                w.l.reset(); while (w.s.PollOne()) {}
                { Quiet q; if (!same_mode(os::mode(), m0)) fib::fail("the terminal is not in the mode it had before"); }
                if (again) { w.open(); fib::idle(); while (w.s.PollOne()) fib::idle(); w.l.reset(); }
            }
            if (user.joinable()) user.join();
            Quiet q; post_mortem(m0, show(t), 1); c.outcome(mix(os::taken(), os::left()));
        });
    }});

Reg c23m({"C23", "many", "n local sessions one after another on one scheduler (n around the powers of two up to the bound), each left with nothing typed, with a command executed or in the middle of an escape sequence: no descriptor, thread or terminal mode is left behind by any of them",
    {0}, {0}, [](Ctx& c) {
        size_t n = size_choice(c); if (n > 257) { c.prune(); return; } static const string T[] = {"", "a\n", "a\n\x1b["}; auto& t = T[c.choose(3, "typed")];
        fib::go(c, 0, [&] {
            termios m0 = os::mode(); fib::max_steps(20000 + 2000 * n);
            {
                Loc w;
                for (size_t i = 0; i < n; ++i) {
                    size_t had; { Quiet q; had = w.log.size(); os::type(t.data(), t.size()); } w.open(); { Quiet q; if (!manual(os::mode())) fib::fail("session " + to_string(i) + " does not read the terminal"); }
                    fib::idle(); while (w.s.PollOne()) fib::idle();
                    { Quiet q; if (w.log.size() != had + !t.empty()) fib::fail("session " + to_string(i) + " did not execute its command"); }
                    w.l.reset(); while (w.s.PollOne()) {}
                    Quiet q; if (!same_mode(os::mode(), m0)) fib::fail("session " + to_string(i) + " leaves the terminal in another mode"); if (os::open_fds()) fib::fail("session " + to_string(i) + " leaves descriptors open"); if (fib::alive() > 1) fib::fail("session " + to_string(i) + " leaves its thread"); w.out.str("");
                }
            }
            Quiet q; post_mortem(m0, show(t), 1); c.state(n); c.outcome(os::taken());
        });
    }});

Reg c23x({"C23", "no-resources", "the n-th pipe, descriptor or thread a keyboard or local session asks for cannot be had (n up to the bound), in every initial terminal mode, with bytes typed or not, every interleaving up to one preemption: construction fails or not, the terminal is back in its mode, nothing stays open, no thread runs and nothing stays registered; a session built afterwards works",
    {4}, {6}, [](Ctx& c) {
        int n = 1 + c.choose(c.bound(), "resource that is missing"); unsigned mode = c.choose(4, "initial mode"); bool ses = c.choose(2, "session"), typed = c.choose(2, "typed"), again = c.choose(2, "another one afterwards"); string tr = string(ses ? "session" : "keyboard") + ", resource " + to_string(n) + " missing, initial mode " + to_string(mode);
        fib::go(c, 1, [&] {
            os::set_mode(initial_mode(mode)); termios m0 = os::mode(); bool threw = false;
            {
                Loc w; cli::LoopScheduler s; { Quiet q; if (typed) os::type("a\n", 2); os::starve(n); }
                try { if (ses) { w.open(); w.l.reset(); } else { cli::detail::Keyboard k(s); k.Register([](Key) {}); } } catch (const exception&) { threw = true; }
                { Quiet q; os::starve(0); post_mortem(m0, tr, 1); w.out.str(""); }
                cli::Cli::cout() << "x" << flush; { Quiet q; if (!w.out.str().empty()) fib::fail(tr + ": the session is gone, but its stream still gets the broadcast"); }
                if (again) { w.open(); { Quiet q; os::type("b\n", 2); } fib::idle(); while (w.s.PollOne()) fib::idle(); { Quiet q; if (w.log.empty() || w.log.back() != "b") fib::fail(tr + ": a session built afterwards does not work"); } w.l.reset(); }
            }
            Quiet q; post_mortem(m0, tr, 1); c.state(n * 2 + threw); c.outcome(1 + threw + 2 * n);
        });
        c.note(tr);
    }});

Reg c23f({"C23", "far-descriptors", "a keyboard or local session built when the process has so many descriptors open that new ones are numbered beyond FD_SETSIZE, in every initial terminal mode, with up to the bound characters typed before or after, end of input or not, every interleaving up to one preemption: either its construction throws, or it delivers the keys and is torn down: nothing is overrun, the terminal is back in its mode, nothing stays open, no thread runs; a session built afterwards works", {1}, {2}, [](Ctx& c) {
        unsigned mode = c.choose(4, "initial mode"); bool ses = c.choose(2, "session"), early = c.choose(2, "typed before"), hang = c.choose(2, "end of input"), again = c.choose(2, "another one afterwards"); int n = c.choose(c.bound() + 1, "typed"); string tr = string(ses ? "session" : "keyboard") + " on far descriptors, initial mode " + to_string(mode);
        fib::go(c, 1, [&] {
            os::set_mode(initial_mode(mode)); termios m0 = os::mode(); bool threw = false;
            {
                Loc w; cli::LoopScheduler s; int got = 0; auto type = [&] { Quiet q; for (int i = 0; i < n; ++i) os::type("a", 1); if (hang) os::hangup(); }; if (early) type(); { Quiet q; os::far_fds(true); }
                try {
                    if (ses) { w.open(); if (!early) type(); fib::idle(); while (w.s.PollOne()) fib::idle(); w.l.reset(); }
                    else { cli::detail::Keyboard k(s); k.Register([&](Key x) { got += x.second == 'a'; }); k.ActivateInput(); if (!early) type(); fib::idle(); while (s.PollOne()) fib::idle(); Quiet q; if (got != n) fib::fail(tr + ": " + to_string(got) + " keys delivered, expected " + to_string(n)); }
                } catch (const exception&) { threw = true; }
                { Quiet q; os::far_fds(false); post_mortem(m0, tr, 1); }
                if (again && !hang) { w.open(); { Quiet q; os::type("\nb\n", 3); } fib::idle(); while (w.s.PollOne()) fib::idle(); { Quiet q; if (w.log.empty() || w.log.back() != "b") fib::fail(tr + ": a session built afterwards does not work"); } w.l.reset(); }
            }
            Quiet q; post_mortem(m0, tr, 1); c.state(n * 2 + threw); c.outcome(1 + threw);
        });
        c.note(tr);
    }});

Reg c23p({"C23", "program", "a whole program: a thread runs the scheduler, a local session is built, the user types commands and exit (or presses the end of file key, or hangs up), the exit action (or a command, or another thread) stops the scheduler, another thread posts tasks meanwhile; every interleaving up to the preemption bound: the run loop returns, the commands ran once each in order, the tasks posted before the stop at most once in order, nothing is left behind",
    {0, 1}, {2}, [](Ctx& c) {
        static const vector<pair<string, vector<string>>> T = {{"a\nexit\n", {"a", "exit"}}, {"exit\na\n", {"exit"}}, {"t\n\x04", {"t", "exit"}}, {"b\nx", {"b"}}, {"stop\nb\n", {"stop"}}, {"a\nb\nexit\nexit\n", {"a", "b", "exit"}}};
        auto& t = T[c.choose(T.size(), "typed")]; bool hang = c.choose(2, "end of input"), poster = c.choose(2, "another thread posts"); unsigned stopper = c.choose(3, "another thread stops"); bool early = c.choose(2, "typed before the start");
        vector<string> want = t.second; bool ends = want.back() == "exit" || want.back() == "stop"; if (!ends && hang) { want.push_back("exit"); ends = true; } if (!ends && !stopper) { c.prune(); return; }
        string tr = show(t.first) + (hang ? " then end of input" : "") + (stopper ? ", stopped by another thread" : "");
        fib::go(c, c.bound(), [&] {
            termios m0 = os::mode(); vector<int> tasks; bool built = false; thread user, other;
            {
                Loc w;
                auto typing = [&] { for (char x : t.first) { { Quiet q; os::type(&x, 1); } if (!early) fib::point("typed"); } Quiet q; if (hang) os::hangup(); };
                if (early) typing();
                if (poster || stopper) other = thread([&] { fib::name("other"); if (poster) for (int i = 0; i < 2; ++i) w.s.Post([&tasks, i] { Quiet q; tasks.push_back(i); }); if (stopper == 2) fib::until([&] { return built; }, "session built"); if (stopper == 2) fib::idle(); if (stopper) w.s.Stop(); });
                w.open(); w.l->ExitAction([&](ostream&) { w.s.Stop(); }); { Quiet q; built = true; }
                if (!early) user = thread([&] { fib::name("user"); typing(); });
                w.s.Run();
                {
                    if (!w.s.Stopped() || w.s.PollOne() || w.s.ExecOne()) fib::fail(tr + ": the scheduler goes on after its run loop has returned");
                    Quiet q; bool prefix = w.log.size() <= want.size() && equal(w.log.begin(), w.log.end(), want.begin()); if (stopper ? !prefix : w.log != want) fib::fail(tr + ": executed " + showv(w.log) + ", expected " + showv(want));
                    for (size_t i = 0; i < tasks.size(); ++i) if (tasks[i] != (int)i) fib::fail(tr + ": a posted task runs twice or out of order");
                }
                w.l.reset(); { Quiet q; if (!same_mode(os::mode(), m0)) fib::fail("the terminal is not in the mode it had before (" + tr + ")"); }
                if (user.joinable()) user.join(); if (other.joinable()) other.join();
                size_t n = w.log.size(); while (w.s.PollOne()) {} Quiet q; if (w.log.size() != n) fib::fail(tr + ": a command runs after the session's end");
            }
            Quiet q; post_mortem(m0, tr, 1); c.state(hs(tr)); c.outcome(mix(os::taken(), tasks.size()));
        });
        c.note(tr);
    }});

// ---------------------------------------------------------------- C24
Reg c24a({"C24", "during-commands", "every interleaving (up to the preemption bound) of the reader thread with commands (one or two, also throwing ones) whose handler reads what the user types meanwhile: original mode, no byte taken by the session, everything typed available to the handler, the following keys executed; also with what is typed before the handler starts, end of input meanwhile, and interrupted system calls",
    {0, 1, 12}, {2, 13}, [](Ctx& c) { // 1n: n preemptions, fewer configurations
        static const vector<string> F = {"a\n", "t\n", "a\na\n"}; static const vector<string> M = {"hi\n", "\x1b[A\n", "", "q", "\x1b"}; static const vector<string> N = {"b\n", "x\x7f" "b\n", "\x1b[Db\n"};
        string first = F[c.choose(F.size(), "command")], mid = M[c.choose(M.size(), "typed meanwhile")], next = N[c.choose(c.bound() ? 1 : N.size(), "typed afterwards")]; bool full = c.bound() < 10; bool hang = c.choose(2, "end of input meanwhile"), split = c.choose(full ? 2 : 1, "typed in pieces"); int e = c.bound() < 2 ? c.choose(2, "interruptions") : 0; unsigned mode = c.choose(full ? 2 : 1, "initial mode");
        if (first.size() > 2 && hang) { c.prune(); return; }
        fib::go(c, c.bound() % 10, [&] {
            os::eintr(e); os::set_mode(initial_mode(mode)); termios m0 = os::mode(); thread user; int handlers = 0, done = 0; size_t total = first.size() > 2 ? 2 : 1; string tr = show(first) + ", meanwhile " + show(mid) + ", then " + show(next);
            {
                Loc w;
                w.in_handler = [&] {
                    int before; { Quiet q; before = os::taken(); ++handlers; if (!same_mode(os::mode(), m0)) fib::fail("the terminal is not in its original mode when the handler starts (" + tr + ")"); }
                    size_t had; { Quiet q; had = os::left(); } (void)had;
                    fib::point("in the handler");
                    if (handlers == (int)total) {
                        string got; auto rd = [&] { char x; Quiet q; while (os::nonblock_read(x)) got += x; };
                        int me = fib::self(); int mine0; { Quiet q; mine0 = os::taken_by(me); }
                        for (;;) { fib::until([&] { Quiet q; return os::left() > 0 || got.size() >= mid.size(); }, "read in the handler"); rd(); if (got.size() >= mid.size()) break; }
                        fib::point("in the handler");
                        Quiet q; if (got != mid) fib::fail("the handler read " + show(got) + " (" + tr + ")");
                        if (os::taken() - before != os::taken_by(me) - mine0) fib::fail("the session took input while the handler was running (" + tr + ")");
                    } else { Quiet q; if (os::taken() != before) fib::fail("the session took input while the handler was running (" + tr + ")"); }
                    { Quiet q; if (!same_mode(os::mode(), m0)) fib::fail("the terminal is not in its original mode while the handler runs (" + tr + ")"); ++done; }
                };
                w.open();
                user = thread([&] {
                    fib::name("user");
                    auto ty = [&](const string& s) { for (char x : s) { { Quiet q; os::type(&x, 1); } if (split) fib::point("typed"); } };
                    // the first lines are taken by the session before the last command starts
                    for (size_t i = 0; i < total; ++i) { ty(string(1, first[0]) + "\n"); fib::until([&] { Quiet q; return handlers > (int)i; }, "handler started"); if (i + 1 < total) fib::until([&] { Quiet q; return done > (int)i; }, "handler done"); }
                    ty(mid); fib::until([&] { Quiet q; return done == (int)total; }, "handler done");
                    if (hang) { Quiet q; os::hangup(); } else ty(next);
                });
                for (;;) { bool more; { Quiet q; more = hang ? (w.log.empty() || w.log.back() != "exit") : (w.log.empty() || w.log.back() != "b"); } if (!more) break; w.s.ExecOne(); }
                user.join(); fib::idle(); while (w.s.PollOne()) {}
                { Quiet q; vector<string> want(total, string(1, first[0])); want.push_back(hang ? "exit" : "b"); if (w.log != want) fib::fail("executed " + showv(w.log) + ", expected " + showv(want) + " (" + tr + ")"); if (!manual(os::mode())) fib::fail("the session does not read the terminal after the command (" + tr + ")"); if (os::left()) fib::fail("keys left unread after the command (" + tr + ")"); }
            }
            Quiet q; post_mortem(m0, tr, 1); c.outcome(mix(os::taken(), handlers));
        });
    }});
Reg c24b({"C24", "type-ahead", "every interleaving (up to the preemption bound) of the reader thread, a user who types a command and more without waiting, and the command's handler, which reads what it finds: each byte goes to exactly one of them, in order, none is lost",
    {0, 1, 2}, {2, 3}, [](Ctx& c) {
        static const vector<string> M = {"zz", "b\n", "\x1b[A", "\x1b[3~", "xb"}; string mid = M[c.choose(M.size(), "typed ahead")]; bool thr = c.choose(2, "throws"); 
        fib::go(c, c.bound(), [&] {
            termios m0 = os::mode(); string text = string(thr ? "t" : "a") + "\n" + mid, got; bool in = false;
            {
                Loc w;
                w.in_handler = [&] { int me = fib::self(), b; { Quiet q; in = true; b = os::taken() - os::taken_by(me); if (!same_mode(os::mode(), m0)) fib::fail("the terminal is not in its original mode when the handler starts"); } fib::point("in the handler"); { char x; Quiet q; while (os::nonblock_read(x)) got += x; } fib::point("in the handler"); Quiet q; if (os::taken() - os::taken_by(me) != b) fib::fail("the session took input while the handler was running"); if (!same_mode(os::mode(), m0)) fib::fail("the terminal is not in its original mode while the handler runs"); };
                w.open(); thread user([&] { fib::name("user"); for (char x : text) { { Quiet q; os::type(&x, 1); } fib::point("typed"); } });
                while (!in) w.s.ExecOne(); user.join();
                fib::idle(); while (w.s.PollOne()) fib::idle();
                // what the handler did not read is in the session: finish with a line that shows it
                string rest; { Quiet q; size_t p = got.empty() ? string::npos : text.find(got, 2); if (!got.empty() && p == string::npos) fib::fail("the handler read " + show(got) + " of " + show(text)); rest = got.empty() ? text.substr(2) : text.substr(2, p - 2) + text.substr(p + got.size()); os::type("\x0c", 1); if (os::left() != 1) fib::fail("bytes are left unread"); }
                fib::idle(); while (w.s.PollOne()) fib::idle();
                // expected: the keys of what the session got
                Quiet q; string line; size_t lines = 0; for (auto& k : decode(rest, false)) { if (k.first == KeyType::ascii) line += k.second; else if (k.first == KeyType::ret) { line.clear(); ++lines; } else if (k.first == KeyType::up) line = thr ? "t" : "a"; }
                string o = w.out.str(); size_t pr = o.rfind("cli> "); string row = pr == string::npos ? "" : o.substr(pr + 5); string vis; for (char x : row) if (x == '\b') { if (!vis.empty()) vis.pop_back(); } else vis += x;
                while (!vis.empty() && vis.back() == ' ') vis.pop_back();
                // an escape sequence cut by the handler leaves the session waiting for its end: the clear key completes it
                bool cut = rest.find('\x1b') != string::npos && decode(rest + "\x0c", false).size() == decode(rest, false).size() + (decode(rest, false).size() ? 0 : 0);
                if (!cut && rest.find('\x1b') == string::npos && vis != line) fib::fail("typed " + show(text) + ", the handler read " + show(got) + ": the session's line is " + show(vis) + " instead of " + show(line));
                c.outcome(hs(got + "|" + line));
            }
            Quiet q; post_mortem(m0, show(text), 1);
        });
    }});
Reg c24m({"C24", "many", "n commands in a row (n around the powers of two up to the bound), each of which reads a line or two hundred characters typed during it: each gets what was typed for it, the session the rest",
    {0}, {1}, [](Ctx& c) {
        size_t n = size_choice(c); string mid = c.choose(2, "typed meanwhile") ? string(200, 'y') : string("hi\n"); bool thr = c.choose(2, "throws");
        fib::go(c, 0, [&] {
            termios m0 = os::mode(); fib::max_steps(20000 + 2000 * n);
            {
                Loc w; size_t ran = 0;
                w.in_handler = [&] { Quiet q; if (!same_mode(os::mode(), m0)) fib::fail("the terminal is not in its original mode when handler " + to_string(ran) + " runs"); os::type(mid.data(), mid.size()); { fib::Loud l; fib::idle(); } string got; char x; while (os::nonblock_read(x)) got += x; if (got != mid) fib::fail("handler " + to_string(ran) + " read " + show(got)); ++ran; };
                w.open();
                for (size_t i = 0; i < n; ++i) { { Quiet q; os::type(thr ? "t\n" : "a\n", 2); } fib::idle(); while (w.s.PollOne()) fib::idle(); Quiet q; if (ran != i + 1) fib::fail("command " + to_string(i) + " was not executed"); if (!manual(os::mode())) fib::fail("the session does not read the terminal after command " + to_string(i)); if (os::left()) fib::fail("keys left unread after command " + to_string(i)); w.out.str(""); }
            }
            Quiet q; post_mortem(m0, "many", 1); c.state(n); c.outcome(os::taken());
        });
    }});

// ---------------------------------------------------------------- C17, C12 on the real local session
size_t count(const string& s, const string& w) { size_t n = 0; for (size_t p = s.find(w); p != string::npos; p = s.find(w, p + 1)) ++n; return n; }
struct LocCli { // a Cli whose actions write into the session's stream
    cli::LoopScheduler s; ostringstream out; unique_ptr<cli::Cli> cl; unique_ptr<cli::CliLocalTerminalSession> l; vector<string> ran; bool again = false;
    LocCli()
    {
        auto m = make_unique<cli::Menu>("cli"); m->Insert("a", [](ostream& o) { o << "A\n"; }); m->Insert("quit", [this](ostream&) { l->Exit(); }); m->Insert("t", [](ostream&) { throw runtime_error("x"); });
        auto sub = make_unique<cli::Menu>("s"); sub->Insert("b", [](ostream&) {}); m->Insert(move(sub)); cl = make_unique<cli::Cli>(move(m));
    }
    void turn() { fib::idle(); while (s.PollOne()) fib::idle(); }
};
Reg c17l({"C17", "local", "local sessions on the keyboard: every set of actions (also ones that ask for exit again) x every sequence of up to the bound inputs out of {a, exit, quit (a handler that exits the session), s, t (throws), a character, EOF key}, then end of input or not, typed one at a time, all at once or before the session is built, by two sessions one after the other",
    {1, 2, 3, 4}, {4}, [](Ctx& c) {
        static const vector<pair<string, int>> I = {{"a\n", 0}, {"exit\n", 1}, {"quit\n", 2}, {"s\n", 3}, {"t\n", 0}, {"x", 4}, {"\x04", 5}};
        unsigned acts = c.choose(8, "actions set"); bool again = c.choose(2, "exit actions request exit again"); unsigned when = c.choose(3, "typed"); vector<unsigned> in; for (int i = 0; i < c.bound(); ++i) in.push_back(c.choose(I.size(), "input")); bool hang = c.choose(2, "end of input");
        string tr = string(acts & 1 ? "GE " : "") + (acts & 2 ? "SX " : "") + (acts & 4 ? "GX " : "") + (again ? "re-exit " : ""); for (unsigned k : in) tr += show(I[k].first) + " "; if (hang) tr += "end of input ";
        fib::go(c, 0, [&] {
            termios m0 = os::mode();
            {
                LocCli w; if (acts & 1) w.cl->EnterAction([](ostream& o) { o << "<GE>"; }); if (acts & 4) w.cl->ExitAction([&](ostream& o) { o << "<GX>"; if (again) w.l->Exit(); });
                for (int round = 0; round < (hang ? 1 : 2); ++round) {
                    w.out.str(""); bool ended = false, sub = false; string line;
                    auto judge = [&] {
                        Quiet q; string o = w.out.str(), head = string(acts & 1 ? "<GE>" : "") + "cli> ", x = string(acts & 2 ? "<SX>" : "") + (acts & 4 ? "<GX>" : ""), who = tr + "(session " + to_string(round) + "): ";
                        if (o.compare(0, head.size(), head)) fib::fail(who + "starts with " + show(o.substr(0, head.size() + 8)) + ", expected " + show(head));
                        if (count(o, "<GE>") != (acts & 1)) fib::fail(who + "the enter action runs again: " + show(o));
                        size_t nx = count(o, "<SX>"), ng = count(o, "<GX>");
                        if (nx != (ended && acts & 2) || ng != (ended && acts & 4)) fib::fail(who + (ended ? "exit actions not run exactly once: " : "exit action run without exit: ") + show(o));
                        if (ended && !x.empty()) { size_t p = o.find(x); if (p == string::npos) fib::fail(who + "exit actions out of order: " + show(o)); if (o.find("cli> ", p) != string::npos || o.find("s> ", p) != string::npos) fib::fail(who + "a prompt is shown after the exit: " + show(o.substr(p))); }
                    };
                    auto put = [&](unsigned k) {
                        { Quiet q; os::type(I[k].first.data(), I[k].first.size()); }
                        switch (I[k].second) { case 4: line += "x"; return; case 5: ended = true; break; case 1: if (line.empty()) ended = true; break; case 2: if (line.empty() && !sub) ended = true; break; case 3: if (line.empty()) sub = true; }
                        line.clear();
                    };
                    if (when == 2) for (unsigned k : in) put(k);
                    if (when == 2 && hang) { Quiet q; os::hangup(); ended = true; }
                    w.l = make_unique<cli::CliLocalTerminalSession>(*w.cl, w.s, w.out); if (acts & 2) w.l->ExitAction([&](ostream& o) { o << "<SX>"; if (again) w.l->Exit(); });
                    if (when != 2) { judge(); for (unsigned k : in) { put(k); if (when == 0) { w.turn(); judge(); } } }
                    w.turn(); if (hang && when != 2) { { Quiet q; os::hangup(); } ended = true; w.turn(); }
                    judge(); { Quiet q; c.step(in.size()); c.state(hs(w.out.str(), round)); } w.l.reset(); judge();
                }
            }
            Quiet q; post_mortem(m0, tr, 1);
        });
        c.note(tr);
    }});
Reg c12l({"C12", "local-size", "the history of a local session built with size 0, 1, 2, 3, 5, 17 or the default (100), after fewer, as many and more commands than that, recalled with k Up keys and entered again: the command that runs, against the reference list",
    {0}, {0}, [](Ctx& c) {
        static const int Z[] = {0, 1, 2, 3, 5, 17, 100}; unsigned z = c.choose(8, "size"); bool def = z == 7; int n = def ? 100 : Z[z], k = c.choose(4, "Up keys"), m = max(0, n - 2 + (int)c.choose(5, "commands")); k = k == 0 ? 1 : k == 1 ? max(0, n - 1) : k == 2 ? n : n + 1;
        RefHistory r(n); vector<string> want; for (int i = 0; i < m; ++i) { want.push_back("c" + to_string(i)); r.enter(want.back()); } string line; for (int i = 0; i < k; ++i) line = r.up(line); if (!line.empty()) want.push_back(line);
        string tr = (def ? string("default size") : "size " + to_string(n)) + ", " + to_string(m) + " commands, " + to_string(k) + " Up";
        fib::go(c, 0, [&] {
            fib::max_steps(200000); termios m0 = os::mode();
            {
                cli::LoopScheduler s; ostringstream out; vector<string> ran; unique_ptr<cli::CliLocalTerminalSession> l; auto menu = make_unique<cli::Menu>("cli"); for (int i = 0; i < m; ++i) { string nm = "c" + to_string(i); menu->Insert(nm, [&ran, nm](ostream&) { Quiet q; ran.push_back(nm); }); } cli::Cli cl(move(menu));
                if (def) l = make_unique<cli::CliLocalTerminalSession>(cl, s, out); else l = make_unique<cli::CliLocalTerminalSession>(cl, s, out, n);
                for (int i = 0; i < m; ++i) { { Quiet q; string t = "c" + to_string(i) + "\n"; os::type(t.data(), t.size()); } fib::idle(); while (s.PollOne()) fib::idle(); }
                { Quiet q; for (int i = 0; i < k; ++i) os::type("\x1b[A", 3); os::type("\n", 1); } fib::idle(); while (s.PollOne()) fib::idle();
                { Quiet q; if (ran != want) fib::fail(tr + ": " + to_string(ran.size()) + " commands ran, the last " + (ran.empty() ? "" : ran.back()) + "; expected " + to_string(want.size()) + ", the last " + (want.empty() ? "" : want.back())); }
                l.reset();
            }
            Quiet q; post_mortem(m0, tr, 1); c.step(m + k); c.state(hs(tr));
        });
        c.note(tr);
    }});
// ---------------------------------------------------------------- C11 on the real local session
struct Screen : streambuf { // what the session writes, through the terminal's output processing, on a screen
    VT vt;
    void byte(char x) { Quiet q; const auto o = os::mode().c_oflag; vt.raw_nl = (o & OPOST) && (o & ONLCR); vt.byte(x); }
    int overflow(int x) override { byte(char(x)); return x; }
    streamsize xsputn(const char* s, streamsize n) override { for (streamsize i = 0; i < n; ++i) byte(s[i]); return n; }
};
Reg c11l({"C11", "local", "a local session on the modelled terminal (echo, output processing): every sequence of up to the bound key presses out of {a, b, Enter, backspace, left, up, TAB, clear, delete}, with colours and without, one at a time or two at a time: the screen's last row is prompt and line, the cursor is in its place",
    {3, 4}, {5}, [](Ctx& c) {
        static const vector<string> P = {"a", "b", "\r", "\x7f", "\x1b[D", "\x1b[A", "\t", "\x0c", "\x1b[3~"};
        vector<unsigned> in; for (int i = 0; i < c.bound(); ++i) in.push_back(c.choose(P.size(), "key")); bool colour = c.choose(2, "colours"), pairs = c.choose(2, "two at a time"); string tr; for (unsigned k : in) tr += show(P[k]) + " ";
        if (colour) cli::SetColor(); else cli::SetNoColor();
        fib::go(c, 0, [&] {
            termios m0 = os::mode();
            {
                os::discipline(true); cli::LoopScheduler s; Screen scr; ostream out(&scr); auto menu = make_unique<cli::Menu>("cli"); menu->Insert("ab", [](ostream& o) { o << "A\nB\n"; }); menu->Insert("b", [](ostream& o) { o << "xyz\n"; }); menu->Insert("abb", [](ostream&) {}); cli::Cli cl(move(menu));
                cli::CliLocalTerminalSession l(cl, s, out); l.ExitAction([](ostream&) {});
                string line; size_t pos = 0; RefHistory h(100); static const vector<string> N = {"!", "ab", "abb", "b", "exit", "help", "history"};
                auto set = [&](const string& x) { line = x; pos = x.size(); };
                for (size_t i = 0; i < in.size(); ++i) {
                    {
                        Quiet q; string e = os::press(P[in[i]].data(), P[in[i]].size()); for (char x : e) scr.byte(x);
                        switch (in[i]) {
                            case 0: case 1: line.insert(pos++, P[in[i]]); break;
                            case 2: { string b = line; set(""); size_t p = b.find_first_not_of(' '); if (p == string::npos) h.blank(); else h.enter(b); break; }
                            case 3: if (pos) line.erase(--pos, 1); break;
                            case 4: if (pos) --pos; break;
                            case 5: set(h.up(line)); break;
                            case 6: { string w = line; w.erase(0, min(w.find_first_not_of(' '), w.size())); vector<string> m; for (auto& x : N) if (!x.compare(0, w.size(), w)) m.push_back(x); if (m.empty()) break; if (m.size() == 1) { set(m[0] + " "); break; } string p = m[0]; for (auto& x : m) { size_t k = 0; while (k < p.size() && k < x.size() && p[k] == x[k]) ++k; p.resize(k); } if (p.size() > line.size()) set(p); else pos = line.size(); break; }
                            case 7: pos = line.size(); break;
                            case 8: if (pos < line.size()) line.erase(pos, 1); break;
                        }
                    }
                    if (pairs && i % 2 == 0 && i + 1 < in.size()) continue;
                    fib::idle(); while (s.PollOne()) fib::idle();
                    Quiet q; VT& v = scr.vt; string want = "cli> " + line; c.step();
                    if (!v.bad.empty()) fib::fail(tr + ": " + v.bad);
                    if (v.r + 1 != v.rows.size() || VT::rtrim(v.rows.back()) != VT::rtrim(want) || v.c != 5 + pos) fib::fail(tr + "(" + to_string(i + 1) + " keys): the screen shows " + show(v.rows.back()) + " cursor " + to_string(v.c) + ", expected " + show(want) + " cursor " + to_string(5 + pos));
                    c.state(mix(hs(want), pos));
                }
            }
            Quiet q; post_mortem(m0, tr, 1);
        });
        c.note(tr);
    }});
struct Warm { Warm() { auto old = mc::worker_init; mc::worker_init = [old] { if (old) old(); cli::Cli::cout(); cli::SetNoColor(); }; } } warm_;
}
