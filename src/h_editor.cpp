// C09 TAB, C10 line editing, C11 screen, C33 colours
#include "mc.h"
#include "tree.h"
#include "refhist.h"
#include "vt.h"
#include "rig.h"
#include <cli/clifilesession.h>
#include <deque>
#include <fcntl.h>
#include <poll.h>
#include <termios.h>
#include <unistd.h>

using namespace std;
using namespace mc;
using namespace tree;
static void make_world(World& w, const vector<string>& stored)
{
    w.add(-1, MENU, "r");
    w.add(0, NOARG, "a"); w.add(0, STR, "ab"); int b = w.add(0, MENU, "b"); w.add(b, NOARG, "a"); w.add(b, NOARG, "bb"); w.add(0, NOARG, "b-b");
    w.build(make_unique<Stored>(stored));
    w.custom_wrong();
}
// the ideal editor
struct Ref {
    World& w; RefHistory h; string line; size_t pos = 0; int cur = 0; bool exited = false;
    vector<string> submitted;   // every line submitted, in order
    vector<string> calls, wrongs; vector<string> listed; bool cleared = false;
    Ref(World& _w, size_t hist, const vector<string>& st) : w(_w), h(hist) { h.load(st); }
    static vector<string> split(const string& s) { istringstream i(s); vector<string> r; string t; while (i >> t) r.push_back(t); return r; }
    void run(const string& l)
    {
        auto t = split(l);
        if (t.empty()) { h.blank(); return; }
        h.enter(l);
        if (World::builtin(t)) { if (t[0] == "exit") exited = true; return; }
        auto r = w.resolve(cur, t);
        if (r.what == World::Res::CALL) calls.push_back(r.call); else if (r.what == World::Res::NAV) cur = r.id; else wrongs.push_back(l);
    }
    void set(const string& s) { line = s; pos = s.size(); }
    void key(Key k)
    {
        listed.clear(); cleared = false;
        switch (k.first) {
            case KeyType::ascii:
                if (k.second != '\t') { line.insert(pos, 1, k.second); ++pos; break; }
                else {
                    auto c = w.completions(cur, line);
                    if (c.empty()) break;
                    if (c.size() == 1) { set(c[0] + " "); break; }
                    string p = c[0]; for (auto& x : c) { size_t i = 0; while (i < p.size() && i < x.size() && p[i] == x[i]) ++i; p.resize(i); }
                    if (p.size() > line.size()) { set(p); break; }
                    listed = c; pos = line.size();
                }
                break;
            case KeyType::left: if (pos) --pos; break;
            case KeyType::right: if (pos < line.size()) ++pos; break;
            case KeyType::home: pos = 0; break;
            case KeyType::end: pos = line.size(); break;
            case KeyType::backspace: if (pos) line.erase(--pos, 1); break;
            case KeyType::canc: if (pos < line.size()) line.erase(pos, 1); break;
            case KeyType::up: set(h.up(line)); break;
            case KeyType::down: set(h.down()); break;
            case KeyType::clear: cleared = true; pos = line.size(); break;
            case KeyType::ret: { string l = line; line.clear(); pos = 0; submitted.push_back(l); run(l); break; }
            case KeyType::eof: exited = true; break;
            case KeyType::ignored: break;
        }
    }
    string prompt() const { return w.n[cur].prompt + "> "; }
    uint64_t hash() const { return mix(mix(hs(line), pos), mix(hs(showv(h.show())), mix(h.pos * 2 + h.browsing, cur))); }
};
enum Part { P_TAB, P_LINE, P_SCREEN };

static void editor(Ctx& c, Part part, const vector<Key>& alpha, size_t hist, const vector<string>& stored, int n, bool colour, bool batch, const vector<Key>& before_keys = {})
{
    if (colour) cli::SetColor(); else cli::SetNoColor();
    World w; make_world(w, stored);
    w.on_call = [&](int id) { if (w.expect_out) *const_cast<ostream*>(w.expect_out) << "out" << id << "\nmore\n"; };
    Rig g(w, hist); Ref r(w, hist, stored); VT vt; vt.feed(g.take());
    string tr;
    auto compare_calls = [&] {
        if (w.log != r.calls) { c.fail(tr + ": handlers run " + showv(w.log) + ", expected " + showv(r.calls)); return false; }
        if (w.wrong != r.wrongs) { c.fail(tr + ": lines refused " + showv(w.wrong) + ", expected " + showv(r.wrongs)); return false; }
        return true;
    };
    for (int i = -(int)before_keys.size(); i < n && !r.exited; ++i) {
        Key k = i < 0 ? before_keys[before_keys.size() + i] : alpha[c.choose(alpha.size(), "key")]; if (i >= 0 || i < -(int)before_keys.size() + 4) tr += keyname(k) + " "; else if (i == -1) tr += "... " + to_string(before_keys.size()) + " keys; ";
        string before = r.line; r.key(k); c.step();
        if (batch) { g.kb.key(k); continue; }
        g.key(k);
        string o = g.take(); vt.feed(o);
        c.state(r.hash());
        if (part == P_LINE || part == P_TAB) { if (!compare_calls()) return; }
        if (r.exited) break;
        if (part == P_TAB) {
            if (k == TAB) {
                string plain = unstyle(o);
                if (!r.listed.empty()) {
                    string want = "\n"; vector<string> got; string cell; size_t p = plain.rfind(r.prompt());
                    if (p == string::npos) { c.fail(tr + ": the choices are not followed by a new prompt: " + show(plain)); return; }
                    for (char x : plain.substr(0, p)) if (x == '\n' || x == '\t' || x == '\r') { if (!cell.empty()) got.push_back(cell); cell.clear(); } else cell += x;
                    if (!cell.empty()) got.push_back(cell);
                    sort(got.begin(), got.end());
                    if (got != r.listed) { c.fail(tr + ": lists " + showv(got) + ", expected " + showv(r.listed)); return; }
                }
                else if (plain.find(r.prompt()) != string::npos || plain.find('\n') != string::npos) { c.fail(tr + ": prints " + show(plain)); return; }
            }
        }
        if (part == P_TAB || part == P_SCREEN) {
            string want = r.prompt() + r.line, got = vt.rows.back();
            if (!vt.bad.empty()) { c.fail(tr + ": " + vt.bad); return; }
            if (vt.r + 1 != vt.rows.size() || VT::rtrim(got) != VT::rtrim(want) || vt.c != r.prompt().size() + r.pos) { c.fail(tr + ": the screen shows " + show(got) + " cursor " + to_string(vt.c) + (vt.r + 1 != vt.rows.size() ? " not on the last row" : "") + ", expected " + show(want) + " cursor " + to_string(r.prompt().size() + r.pos)); return; }
            if (r.cleared && vt.rows.size() != 1) { c.fail(tr + ": other rows are left on the screen"); return; }
        }
    }
    if (batch) { g.sched.drain(); if (!compare_calls()) return; }
    if (part != P_SCREEN && !r.exited) {
        // whatever is in the line now is what Enter submits
        r.key(RET); g.key(RET); tr += "enter";
        if (!compare_calls()) return;
        g.take(); g.s->ShowHistory(); auto hgot = parse_history(g.take());
        if (part == P_LINE && hgot != r.h.show()) { c.fail(tr + ": history is " + showv(hgot) + ", expected " + showv(r.h.show())); return; }
        if (part == P_TAB && !r.submitted.empty()) {
            auto l = r.submitted.back();
            if (!Ref::split(l).empty() && hist && (hgot.empty() || hgot.back().substr(hgot.back().find('\t') + 1) != l)) { c.fail(tr + ": the line submitted was not " + show(l) + ": " + showv(hgot)); return; }
        }
    }
    c.note(tr + " -> " + showv(r.submitted));
}
static vector<Key> chars(const string& s) { vector<Key> r; for (char x : s) r.push_back(ch(x)); return r; }
static vector<Key> operator+(vector<Key> a, const vector<Key>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static const vector<Key> FULL = chars("ab ") + vector<Key>{LEFT, RIGHT, HOME, END, BS, DEL, UP, DOWN, TAB, CLEAR, IGN, RET, EOFK};
static const vector<Key> EDIT = chars("ab") + vector<Key>{LEFT, RIGHT, HOME, BS, DEL};
static const vector<Key> HIST = chars("a") + vector<Key>{LEFT, BS, UP, DOWN, RET, CLEAR};
static const vector<string> ST = {"b", "ab x", "zz"};

static Reg c1({"C10", "all-keys", "every sequence of up to the bound keys out of {a, b, blank, left, right, home, end, backspace, delete, up, down, TAB, clear, unknown, enter, eof}, then enter: lines submitted (handlers run with their arguments, refused lines, recorded history) compared with the ideal editor", {4, 5}, {5, 6}, [](Ctx& c) { editor(c, P_LINE, FULL, 4, ST, c.bound(), false, false); }});
static Reg c2({"C10", "edit-keys", "every sequence of the bound keys out of {a, b, left, right, home, backspace, delete}, then enter", {6}, {7, 8}, [](Ctx& c) { editor(c, P_LINE, EDIT, 4, ST, c.bound(), false, false); }});
static Reg c3({"C10", "history-keys", "every sequence of the bound keys out of {a, left, backspace, up, down, enter, clear} for history sizes 0..3, then enter", {5}, {6, 7}, [](Ctx& c) { size_t h = c.choose(4, "history size"); editor(c, P_LINE, HIST, h, ST, c.bound(), false, false); }});
static Reg c4({"C10", "batched", "the same with all keys queued in the scheduler before any is handled", {4}, {5}, [](Ctx& c) { auto k = FULL; k.pop_back(); editor(c, P_LINE, k, 4, ST, c.bound(), false, true); }});
static vector<Key> bytes() { vector<Key> r; for (int i = 33; i < 256; ++i) if (i != 127) r.push_back(ch(char(i))); for (auto k : {LEFT, BS, TAB}) r.push_back(k); return r; }
// quotes, '!' and bytes >= 128 are text like any other for the editor: only the history and the refused lines tell what was submitted
static Reg c5({"C10", "bytes", "every sequence of the bound keys out of all printable bytes (33..255), left, backspace and TAB, then enter: the line recorded is the line typed", {2}, {2}, [](Ctx& c) {
    cli::SetNoColor(); World w; make_world(w, {}); Rig g(w, 4); Ref r(w, 4, {}); static const vector<Key> A = bytes(); string tr;
    for (int i = 0; i < c.bound(); ++i) { Key k = A[c.choose(A.size(), "key")]; tr += keyname(k) + " "; r.key(k); g.key(k); c.step(); c.state(r.hash()); }
    string l = r.line; if (Ref::split(l).empty() || l.find_first_of("\"'\\!") != string::npos) { c.note(tr); return; }
    g.key(RET); g.take(); g.s->ShowHistory(); auto h = parse_history(g.take());
    if (h != vector<string>{"0\t" + l}) c.fail(tr + ": recorded " + showv(h) + ", expected " + show(l)); c.note(tr); }});

static Reg b1({"C11", "all-keys", "every sequence of up to the bound keys out of {a, b, blank, left, right, home, end, backspace, delete, up, down, TAB, clear, unknown, enter, eof}: after each key the terminal model shows the prompt and the line, cursor at the editing position", {4, 5}, {5, 6}, [](Ctx& c) { editor(c, P_SCREEN, FULL, 4, ST, c.bound(), false, false); }});
static Reg b2({"C11", "edit-keys", "every sequence of the bound keys out of {a, b, left, right, home, backspace, delete}", {6}, {7, 8}, [](Ctx& c) { editor(c, P_SCREEN, EDIT, 4, ST, c.bound(), false, false); }});
static Reg b3({"C11", "history-keys", "every sequence of the bound keys out of {a, left, backspace, up, down, enter, clear} for history sizes 0..3, colours on or off", {5}, {6, 7}, [](Ctx& c) { size_t h = c.choose(4, "history size"); editor(c, P_SCREEN, HIST, h, ST, c.bound(), c.choose(2, "colours"), false); }});
static Reg b4({"C11", "colours", "every sequence of the bound keys of the full alphabet with colours on", {4}, {5}, [](Ctx& c) { editor(c, P_SCREEN, FULL, 4, ST, c.bound(), true, false); }});

// long lines: typed (in three ways) or recalled from the history
static void long_line(Ctx& c, Part part)
{
    size_t n; { static const unsigned q[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 79, 80, 81, 99, 100, 127, 128, 129, 255, 256, 257}, t[] = {511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097}; n = c.bound() >= 10 ? t[c.choose(10, "length")] : q[c.choose(20, "length")]; }
    static const vector<Key> A = chars("ab ") + vector<Key>{LEFT, RIGHT, HOME, END, BS, DEL, UP, DOWN, CLEAR, RET, TAB};
    string text; for (size_t i = 0; i < n; ++i) text += char(i % 7 == 6 ? ' ' : 'a' + i % 23);
    vector<Key> pre; vector<string> st = {"b", string("ab ") + string(n, 'h'), "zz"};
    switch (c.choose(5, "line")) {
        case 0: pre = chars(text); break;
        case 1: pre = chars(text); pre.push_back(HOME); break;
        case 2: pre = chars(text); for (size_t i = 0; i < n / 2; ++i) pre.push_back(LEFT); break;
        case 3: pre = {UP, UP}; break;                                   // recalled
        case 4: pre = chars(text.substr(0, n / 2)); for (size_t i = 0; i < n / 2; ++i) pre.push_back(LEFT); pre = pre + chars(text.substr(n / 2)); break;   // typed at the front
    }
    editor(c, part, A, 4, st, c.bound() % 10, false, false, pre);
}
static Reg c6({"C10", "long-lines", "lines of 15..257 (thorough: ..4097) characters typed at the end, typed at the front or recalled, cursor at the end, the start and the middle, then every sequence of up to the bound (mod 10) keys of 14, then enter", {1, 2}, {2, 11}, [](Ctx& c) { long_line(c, P_LINE); }, 120});
static Reg b5({"C11", "long-lines", "lines of 15..257 (thorough: ..4097) characters typed at the end, typed at the front or recalled, cursor at the end, the start and the middle, then every sequence of up to the bound (mod 10) keys of 14: the terminal shows the line after every key", {1, 2}, {2, 11}, [](Ctx& c) { long_line(c, P_SCREEN); }, 120});
// many keys without an end: the session behaves the same after thousands of them
static void long_session(Ctx& c, Part part)
{
    static const vector<Key> A = chars("ab ") + vector<Key>{LEFT, HOME, BS, DEL, UP, UP, DOWN, TAB, CLEAR, RET}; unsigned step = 1 + c.choose(12, "step"), from = c.choose(13, "first");
    vector<Key> pre; for (int i = 0; i < c.bound(); ++i) pre.push_back(A[(from + i * step + (i / 13) * (i % 5)) % 13]);
    editor(c, part, A, 4, ST, 0, false, false, pre);
}
static Reg c7({"C10", "long-sessions", "156 periodic key sequences of the bound number of keys in one session", {2000}, {20000}, [](Ctx& c) { long_session(c, P_LINE); }, 300});
static Reg b6({"C11", "long-sessions", "156 periodic key sequences of the bound number of keys in one session", {300}, {1000}, [](Ctx& c) { long_session(c, P_SCREEN); }, 300});

static const vector<Key> TABK = chars("abh ") + vector<Key>{LEFT, HOME, BS, TAB, RET};
static Reg a1({"C09", "tab", "every sequence of the bound keys out of {a, b, h, blank, left, home, backspace, TAB, enter}: effect of each TAB on line, cursor, output and execution compared with the rule", {5, 6}, {6, 7}, [](Ctx& c) { editor(c, P_TAB, TABK, 4, {}, c.bound(), false, false); }});
static Reg a2({"C09", "tab-names", "TAB after every prefix (with the cursor at every position) of up to 6 characters of every completion, for every tree of up to the bound commands out of a set of overlapping names, in root and submenu", {2}, {3}, [](Ctx& c) {
    static const vector<string> N = {"a", "ab", "abc", "abd", "b", "he", "help", "x-y", "ab/c", "exit1"};
    cli::SetNoColor(); World w; w.add(-1, MENU, "ab"); int m = w.add(0, MENU, "abm"); string tr;
    for (int i = 0; i < c.bound(); ++i) { unsigned k = c.choose(N.size(), "name"); bool sub = c.choose(2, "in submenu"); w.add(sub ? m : 0, c.choose(2, "kind") ? INT : NOARG, N[k]); }
    w.build(); w.custom_wrong(); tr = w.dump() + " ";
    bool in = c.choose(2, "current menu"); int cur = in ? m : 0;
    static const vector<string> L = {"", "a", "ab", "abc", "abm", "abm ", "abm a", "abm ab", "h", "he", "hel", "help", "e", "exit", "!", "z", " a", "  ab", "x", "b", "ab ", "ab a", ".. ", ".. a", "..", "a ", "abm  a", "h "};
    string l = L[c.choose(L.size(), "line")]; size_t back = c.choose(min<size_t>(l.size(), 3) + 1, "cursor");
    Rig g(w, 4); Ref r(w, 4, {});
    if (in) { for (char x : string("abm")) { g.key(ch(x)); r.key(ch(x)); } g.key(RET); r.key(RET); }
    for (char x : l) { g.key(ch(x)); r.key(ch(x)); } for (size_t i = 0; i < back; ++i) { g.key(LEFT); r.key(LEFT); }
    VT vt; string o0 = g.take(); vt.feed(o0); (void)cur; tr += in ? "[in abm] " : ""; tr += show(l) + " cursor -" + to_string(back) + " TAB";
    g.key(TAB); r.key(TAB); c.step(); string o = g.take(); vt.feed(o);
    c.state(mix(hs(l), mix(hs(w.dump()), back * 2 + in)));
    if (!w.log.empty() || !w.wrong.empty()) { c.fail(tr + ": TAB executed something"); return; }
    string want = r.prompt() + r.line, got = vt.rows.back();
    if (VT::rtrim(got) != VT::rtrim(want) || vt.c != r.prompt().size() + r.pos) { c.fail(tr + ": the screen shows " + show(got) + " cursor " + to_string(vt.c) + ", expected " + show(want) + " cursor " + to_string(r.prompt().size() + r.pos)); return; }
    for (auto& x : r.listed) { bool ok = false; for (auto& row : vt.rows) { string q = "\t" + row + "\t"; for (auto& ch2 : q) if (ch2 == ' ') ch2 = ' '; if (o.find("\t" + x) != string::npos || o.find("\n" + x) != string::npos) ok = true; } if (!ok) { c.fail(tr + ": " + show(x) + " is not listed in " + show(o)); return; } }
    string before = r.line; g.key(RET); r.key(RET); g.take(); g.s->ShowHistory(); auto h = parse_history(g.take());
    if (!Ref::split(before).empty() && (h.empty() || h.back().substr(h.back().find('\t') + 1) != before)) c.fail(tr + ": the line became " + showv(h) + ", expected " + show(before));
    c.note(tr + " -> " + before);
}});

static Reg a3({"C09", "many", "sizes around every power of two and round number up to the bound: that many candidates, candidates that long, a common prefix that long: TAB extends, lists each once, or completes", {0}, {0, 1}, [](Ctx& c) {
    unsigned n = size_choice(c), k = c.choose(3, "what is large"), li = c.choose(6, "line"); cli::SetNoColor(); World w; w.add(-1, MENU, "r"); int m = w.add(0, MENU, "sub"); vector<string> L;
    if (k == 0) { for (unsigned i = 0; i < n; ++i) { w.add(0, NOARG, "k" + to_string(i)); w.add(m, NOARG, "q" + to_string(i)); } L = {"", "k", "k1", "sub ", "sub q", "k" + to_string(n - 1)}; }
    else if (k == 1) { string a(n, 'a'); w.add(0, NOARG, a + "b"); w.add(0, NOARG, a + "c"); w.add(m, NOARG, "z" + a); w.add(m, NOARG, a); L = {"a", a, a + "b", "sub ", "sub a", "sub z"}; }
    else { string a(n, 'a'); for (int i = 0; i < 12; ++i) w.add(0, NOARG, a + char('a' + i) + string(n / 2 + i, 'x')); L = {"a", a, a + "b", a.substr(1), a + "cx", "s"}; }
    w.build(); w.custom_wrong(); Rig g(w, 4); Ref r(w, 4, {}); string l = L[li]; g.take();
    for (char x : l) { g.key(ch(x)); r.key(ch(x)); } g.take();
    string tr = "size " + to_string(n) + " case " + to_string(k) + ", line " + show(l.size() > 40 ? l.substr(0, 40) + "..." : l) + " TAB";
    for (int rep = 0; rep < 2; ++rep) {
        g.key(TAB); r.key(TAB); c.step(); string o = g.take(); c.state(mix(hs(r.line), n * 3 + k));
        if (!w.log.empty() || !w.wrong.empty()) { c.fail(tr + ": TAB executed something"); return; }
        size_t p = o.rfind(r.prompt());
        if (!r.listed.empty()) {
            vector<string> got; string cell; if (p == string::npos) { c.fail(tr + ": no new prompt after the list"); return; }
            for (char x : o.substr(0, p)) if (x == '\n' || x == '\t' || x == '\r') { if (!cell.empty()) got.push_back(cell); cell.clear(); } else cell += x;
            if (!cell.empty()) got.push_back(cell); sort(got.begin(), got.end());
            if (got != r.listed) { c.fail(tr + ": lists " + to_string(got.size()) + " choices, expected " + to_string(r.listed.size()) + " (or others)"); return; }
            VT vt; vt.feed(o.substr(p)); if (VT::rtrim(vt.rows.back()) != VT::rtrim(r.prompt() + r.line) || vt.c != r.prompt().size() + r.pos) { c.fail(tr + ": the line shown after the list is " + show(vt.rows.back())); return; }
        } else if (p != string::npos) { c.fail(tr + ": a prompt is printed"); return; }
    }
    string before = r.line; g.key(RET); r.key(RET); g.take(); g.s->ShowHistory(); auto h = parse_history(g.take());
    if (!Ref::split(before).empty() && (h.empty() || h.back().substr(h.back().find('\t') + 1) != before)) c.fail(tr + ": the line became " + showv(h) + ", expected " + show(before));
    c.note(tr); }, 120});

// ---------------------------------------------------------------- C33
static Assume as1("C33", "colours are process-wide state of the library (SetColor/SetNoColor); the comparison runs the same keys once with colours off and once with colours on");
struct Seg { string text; int at; };
static vector<string> styled(const string& o, bool& open)
{
    vector<string> r; string cur; open = false;
    for (size_t i = 0; i < o.size(); ++i) {
        if (o[i] == 27 && i + 1 < o.size() && o[i + 1] == '[') {
            size_t j = i + 2; while (j < o.size() && ((o[j] >= '0' && o[j] <= '9') || o[j] == ';')) ++j;
            if (j < o.size() && o[j] == 'm') {
                string p = o.substr(i + 2, j - i - 2); bool reset = p.empty() || p == "0";
                if (open && !cur.empty()) { r.push_back(cur); cur.clear(); }
                open = !reset; i = j; continue;
            }
        }
        if (open) cur += o[i];
    }
    if (open && !cur.empty()) r.push_back(cur);
    return r;
}
static string nobs(const string& s) { string r; for (char x : s) if (x != '\b') r += x; return r; }
static void colours(Ctx& c, const vector<Key>& alpha, int n, const vector<Key>* script = nullptr, const function<void(ostream&)>& pre = {}, const string& what = "")
{
    cli::SetNoColor();
    World w0, w1; make_world(w0, ST); make_world(w1, ST); bool closed = true;
    w0.on_call = [&](int id) { *const_cast<ostream*>(w0.expect_out) << "out" << id << "\nZ\n"; };
    w1.on_call = [&](int id) { bool open; styled(static_cast<const ostringstream*>(w1.expect_out)->str(), open); if (open) closed = false; *const_cast<ostream*>(w1.expect_out) << "out" << id << "\nZ\n"; };
    Rig g0(w0, 4); cli::SetColor(); Rig g1(w1, 4); Ref r(w1, 4, ST); string tr, prompt = r.prompt(), line;
    auto cmp = [&](Key* k) {
        string a = g0.take(), b = g1.take(); bool any = false, open = false; string ua = unstyle(a, &any), ub = unstyle(b);
        if (any) { c.fail(tr + ": style sequences with colours off: " + show(a)); return false; }
        if (ua != ub) { c.fail(tr + ": with colours on the text is " + show(ub) + ", with colours off " + show(ua)); return false; }
        auto seg = styled(b, open);
        if (open) { c.fail(tr + ": the style is left on: " + show(b)); return false; }
        if (!closed) { c.fail(tr + ": the style is on when the handler runs"); return false; }
        size_t prompts = 0, pseg = 0; string pr = r.prompt(), pn = pr.substr(0, pr.size() - 2);
        for (size_t p = ub.find(pr); p != string::npos; p = ub.find(pr, p + 1)) ++prompts;
        for (auto& s : seg) {
            string t = nobs(s);
            if (t == pn || t == pr) { ++pseg; continue; }
            if (r.line.find(t) != string::npos || line.find(t) != string::npos) continue;
            c.fail(tr + ": text that is neither prompt nor input is styled: " + show(s)); return false;
        }
        if (!r.exited && prompts != pseg) { c.fail(tr + ": the prompt is not styled in " + show(b)); return false; }
        if (k && k->first == KeyType::ascii && k->second != '\t') { bool ok = false; for (auto& s : seg) if (!s.empty() && s[0] == k->second) ok = true; if (!ok) { c.fail(tr + ": the echo is not styled: " + show(b)); return false; } }
        if (k && (k->first == KeyType::up || k->first == KeyType::down) && !r.line.empty()) { bool ok = false; for (auto& s : seg) if (nobs(s) == r.line) ok = true; if (!ok) { c.fail(tr + ": the recalled line is not styled: " + show(b)); return false; } }
        return true;
    };
    if (!cmp(nullptr)) return;
    tr = what; if (pre) { pre(*const_cast<ostream*>(w0.expect_out)); pre(*const_cast<ostream*>(w1.expect_out)); }
    for (int i = 0; i < n && !r.exited; ++i) {
        Key k = script ? (*script)[i] : alpha[c.choose(alpha.size(), "key")]; if (i < 40) tr += keyname(k) + " "; line = r.line; r.key(k); c.step();
        cli::SetNoColor(); g0.key(k); cli::SetColor(); g1.key(k); c.state(r.hash());
        if (!cmp(&k)) return;
    }
    c.note(tr);
}
static const vector<Key> CF = FULL;
static Reg e1({"C33", "keys", "every sequence of the bound keys of the full alphabet, typed into one session with colours off and one with colours on: same text, style sequences only with colours on, around prompt and input only, always closed", {4}, {5}, [](Ctx& c) { colours(c, CF, c.bound()); }});
static Reg e5({"C33", "long-lines", "a line of n characters (n around the powers of two up to the bound) typed, walked through, shortened, executed and recalled, and n short lines executed one after another, with colours off and on", {0}, {1}, [](Ctx& c) {
    unsigned n = size_choice(c), how = c.choose(3, "script"); vector<Key> k; auto rep = [&](const Key& x, unsigned m) { for (unsigned i = 0; i < m; ++i) k.push_back(x); };
    const Key A = chars("a")[0];
    if (how == 0) { rep(A, n); rep(LEFT, n); rep(RIGHT, 2); k.push_back(A); k.push_back(END); rep(BS, 3); k.push_back(RET); k.push_back(UP); k.push_back(BS); k.push_back(RET); }
    else if (how == 1) { rep(A, n); k.push_back(HOME); k.push_back(A); k.push_back(TAB); rep(DEL, 2); k.push_back(RET); k.push_back(UP); }
    else for (unsigned i = 0; i < n; ++i) { k.push_back(A); k.push_back(RET); }
    colours(c, k, k.size(), &k); }});
static Reg e2({"C33", "history-keys", "the same for longer sequences of {a, left, backspace, up, down, enter, clear}", {5}, {6, 7}, [](Ctx& c) { colours(c, HIST, c.bound()); }});
static Reg e7({"C33", "stream-state", "the same for the bound keys on streams left in each of 6 formatting states (hexadecimal, octal, hexadecimal with base, sign, left with a fill character, digits grouped by the locale)", {3}, {4}, [](Ctx& c) {
    struct Grp : numpunct<char> { char do_thousands_sep() const override { return '.'; } string do_grouping() const override { return "\1"; } };
    static const char* N[] = {"hex: ", "oct: ", "0x: ", "showpos: ", "fill: ", "locale: "}; unsigned st = c.choose(6, "state");
    colours(c, CF, c.bound(), nullptr, [st](ostream& o) { switch (st) { case 0: o << hex; break; case 1: o << oct; break; case 2: o << hex << showbase; break; case 3: o << showpos; break; case 4: o << left; o.fill('0'); break; case 5: o.imbue(locale(locale::classic(), new Grp)); break; } }, N[st]); }});
static Reg e6({"C33", "switching", "every sequence of up to the bound actions out of {colours on, colours off, a key of (a, left, backspace, up, tab, clear, enter)} in a session that starts with colours on or off, next to one that never sees them on; the commands leave the colours alone, switch them on, off or over: same text, the style is closed after every key and when a command runs, a key pressed with colours off emits none, the prompt is styled exactly if they are on when it is shown", {5}, {6, 7}, [](Ctx& c) {
    static const vector<Key> K = chars("a") + vector<Key>{LEFT, BS, UP, TAB, CLEAR, RET}; bool on = c.choose(2, "colours at the start"); unsigned what = c.choose(4, "the command switches"); static const char* W[] = {"nothing", "on", "off", "over"};
    cli::SetNoColor(); World w0, w1; make_world(w0, ST); make_world(w1, ST); bool closed = true, ever = on; Rig g0(w0, 4);
    w0.on_call = [&](int id) { *const_cast<ostream*>(w0.expect_out) << "out" << id << "\nZ\n"; };
    w1.on_call = [&](int id) { bool open; styled(static_cast<const ostringstream*>(w1.expect_out)->str(), open); if (open) closed = false; if (what == 3) on = !on; else if (what) on = what == 1; if (on) cli::SetColor(); else cli::SetNoColor(); ever |= on; *const_cast<ostream*>(w1.expect_out) << "out" << id << "\nZ\n"; };
    if (on) cli::SetColor(); Rig g1(w1, 4); Ref r(w1, 4, ST); string tr = string(on ? "on" : "off") + ", commands switch " + W[what] + ": "; bool was = on;
    auto cmp = [&] {
        string a = g0.take(), b = g1.take(); bool any = false, open = false; string ub = unstyle(b, &any); auto seg = styled(b, open);
        if (a != ub) return "the text is " + show(ub) + ", without colours " + show(a);
        if (open) return "the style is left on: " + show(b);
        if (!closed) return string("the style is on when the command runs");
        if (any && !was && !on) return "style sequences with colours off: " + show(b);
        if (any && !ever) return "style sequences, colours were never on: " + show(b);
        string pr = r.prompt(), pn = pr.substr(0, pr.size() - 2); size_t p = 0, ps = 0; for (size_t i = ub.find(pr); i != string::npos; i = ub.find(pr, i + 1)) ++p; for (auto& s : seg) { string t = nobs(s); if (t == pn || t == pr) ++ps; }
        if (!r.exited && p && ps != (on ? p : 0)) return (on ? "the prompt is not styled: " : "the prompt is styled: ") + show(b);
        return string(); };
    string e = cmp();
    for (int i = 0; i < c.bound() && e.empty() && !r.exited; ++i) {
        unsigned k = c.choose(K.size() + 2, "action"); c.step(); was = on;
        if (k < 2) { on = k; ever |= on; tr += on ? "[on] " : "[off] "; continue; }
        auto key = K[k - 2]; tr += keyname(key) + " "; r.key(key); cli::SetNoColor(); g0.key(key); if (on) cli::SetColor(); g1.key(key); cli::SetNoColor(); e = cmp(); c.state(mc::mix(r.hash() + on, what));
    }
    cli::SetNoColor(); if (!e.empty()) c.fail(tr + e); c.note(tr); }});
static Reg e3({"C33", "files", "file sessions over every input of up to the bound lines (commands, wrong, menu, help, history, exit, blank), colours off and on", {3, 4}, {4}, [](Ctx& c) {
    static const vector<string> L = {"a", "nope", "b", "help", "history", "exit", ""}; string in; for (int i = 0; i < c.bound(); ++i) in += L[c.choose(L.size(), "line")] + "\n";
    string o[2]; for (int k = 0; k < 2; ++k) { if (k) cli::SetColor(); else cli::SetNoColor(); World w; make_world(w, {}); istringstream is(in); ostringstream os; { cli::CliFileSession s(*w.cli, is, os); s.Start(); } o[k] = os.str(); }
    bool any = false; string a = unstyle(o[0], &any), b = unstyle(o[1]); bool open; styled(o[1], open); c.step(); c.state(hs(in));
    if (any) c.fail(show(in) + ": style sequences with colours off"); else if (a != b) c.fail(show(in) + ": colours change the text: " + show(b) + " instead of " + show(a)); else if (open) c.fail(show(in) + ": the style is left on"); c.note(show(in)); }});
static Reg e4({"C33", "terminal", "a session writing to std::cout on a real (pseudo) terminal with every TERM value of a set, colours never switched on / on: style sequences only if on", {3}, {4}, [](Ctx& c) {
    static const vector<Key> K = chars("a") + vector<Key>{UP, RET, TAB, LEFT, BS};
    static const char* T[] = {"xterm", "vt100", "dumb", "linux"};
    setenv("TERM", T[c.choose(4, "TERM")], 1); bool on = c.choose(2, "colours");
    int m = posix_openpt(O_RDWR | O_NOCTTY); if (m < 0 || grantpt(m) || unlockpt(m)) { c.fail("no pseudo terminal"); return; }
    int sl = open(ptsname(m), O_RDWR | O_NOCTTY); termios t; tcgetattr(sl, &t); cfmakeraw(&t); tcsetattr(sl, TCSANOW, &t);
    fflush(stdout); int save = dup(1); dup2(sl, 1);
    string got, tr;
    auto slurp = [&] { cout.flush(); fflush(stdout); pollfd p{m, POLLIN, 0}; char b[4096]; while (poll(&p, 1, 0) > 0 && (p.revents & POLLIN)) { ssize_t k = read(m, b, sizeof b); if (k <= 0) break; got.append(b, k); } };
    if (on) cli::SetColor(); else cli::SetNoColor();
    {
        World w; make_world(w, {});
        for (int i = 0; i < 64; ++i) cout.iword(i) = 0;   // as in a process where colours were never used
        cli::CliSession s(*w.cli, cout, 4); QueueSched q; Kb kb(q); cli::detail::CommandProcessor<cli::detail::TelnetScreen> cp(s, kb); s.Enter(); s.Prompt();
        for (int i = 0; i < c.bound(); ++i) { Key k = K[c.choose(K.size(), "key")]; tr += keyname(k) + " "; kb.key(k); q.drain(); slurp(); c.step(); }
        slurp();
    }
    dup2(save, 1); close(save); close(sl); close(m); cli::SetNoColor();
    bool any = false, open = false; unstyle(got, &any); styled(got, open); c.state(hs(tr + (on ? "1" : "0")));
    if (!on && any) c.fail(tr + "on a terminal: style sequences with colours off: " + show(got));
    else if (on && !any) c.fail(tr + "on a terminal: no style sequences with colours on: " + show(got));
    else if (open) c.fail(tr + "on a terminal: the style is left on: " + show(got));
    else if (got.find("P0") == string::npos) c.fail("no output seen: " + show(got));
    c.note(tr);
}});
