// Telnet: C25 negotiation, C34 keys, C26 output, C27 hostile clients, C28 server, C30 destruction with pending events, C17 (telnet)
// The real Session/TelnetSession/CliTelnetSession/Server run on the real Boost.Asio; the loop is driven one handler at a time.
// Socket calls of Boost.Asio are routed through the functions below, which may shorten or fail them (as the explorer chooses).
#include "mc.h"
#include <cli/cli.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstring>
#include <map>
#include <iostream>
#include "net.h"
#include "refhist.h"

namespace {

static const char IAC = '\xff', SB = '\xfa', SE = '\xf0', WILL = '\xfb', WONT = '\xfc', DO = '\xfd', DONT = '\xfe';
static bool cmdbyte(char c) { return static_cast<unsigned char>(c) >= 0xf0; }
static string noneg(const string& rx, string* cmds = nullptr) { Nvt d; d.feed(rx); if (cmds) *cmds = d.cmds; return d.data; }

// the text a user sees: negotiation removed, line ends (the Enter key is echoed as CR CR LF) as a newline
static string plain(const string& rx) { string r; for (char ch : noneg(rx)) { if (ch == '\n') while (!r.empty() && r.back() == '\r') r.pop_back(); r += ch; } return r; }

static struct Init { Init() { auto old = worker_init; worker_init = [old] { if (old) old(); std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); cli::SetNoColor(); }; } } init_;

// ---------------------------------------------------------------- C25
struct RawSession : cli::detail::TelnetSession { string got; explicit RawSession(LASIO::ip::tcp::socket s) : TelnetSession(move(s)) {} void Output(char c) override { got += c; } };
struct RawRig {
    LASIO::io_context ctx; End e; shared_ptr<RawSession> s; int sfd;
    explicit RawRig(Ctx& c)
    {
        reset_net(&c); int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) abort();
        e.cfd = sv[0]; sfd = sv[1]; ends()[sfd] = &e;
        s = make_shared<RawSession>(LASIO::ip::tcp::socket(ctx, LASIO::ip::tcp::v4(), sfd)); s->Start();
    }
    void run() { for (int i = 0; i < 100000 && ctx.poll_one(); ++i) {} e.pull(); }
    ~RawRig() { s.reset(); e.close_(); ends().clear(); }
};
static void c25_case(Ctx& c, const string& in, const vector<size_t>& cuts, const string& tr)
{
    Nvt ref; ref.feed(in);
    RawRig r(c); string init = r.e.rx; Nvt ni; ni.feed(init);
    if (!ni.data.empty() || ni.state) { c.fail("the opening negotiation is not made of telnet commands: " + show(init)); return; }
    size_t p = 0; for (size_t q : cuts) { r.e.put(in.substr(p, q - p)); r.run(); p = q; c.step(); }
    r.e.put(in.substr(p)); r.run(); c.step();
    string rep = r.e.rx.substr(init.size());
    if (r.s->got != ref.data) { c.fail(tr + ": the session got " + show(r.s->got) + ", expected " + show(ref.data)); return; }
    bool ok = rep.size() == 3 * ref.asks.size(); for (size_t i = 0; ok && i < ref.asks.size(); ++i) ok = rep[3 * i] == IAC && rep[3 * i + 1] >= WILL && rep[3 * i + 1] <= DONT && rep[3 * i + 2] == ref.asks[i];
    if (!ok) { c.fail(tr + ": requests for options " + show(ref.asks) + " answered with " + show(rep)); return; }
    c.state(hs(r.s->got + "|" + rep, cuts.size())); c.outcome(hs(rep));
}
// cuts: 0 none, 1 everywhere, k+2 before byte k+1
static vector<size_t> cuts_of(unsigned k, size_t n) { vector<size_t> r; if (k == 1) for (size_t i = 1; i < n; ++i) r.push_back(i); else if (k > 1) r.push_back(k - 1); return r; }
static string cutname(unsigned k) { return k == 0 ? " in one packet" : k == 1 ? " byte by byte" : " cut before byte " + to_string(k - 1); }
static Reg n1({"C25", "streams", "every byte stream of up to the bound bytes over {IAC, WILL, WONT, DO, DONT, SB, SE, NOP, AYT, a, 1, 3, 31, 24, newline, NUL}, whole, byte by byte, and with every single cut", {3, 4}, {5}, [](Ctx& c) {
    static const string A{"\xff\xfb\xfc\xfd\xfe\xfa\xf0\xf1\xf6" "a\x01\x03\x1f\x18\n\0", 16}; string in; int n = 1 + c.choose(c.bound(), "length"); Nvt ref;
    for (int i = 0; i < n; ++i) { in += A[c.choose(A.size(), "byte")]; ref.feed(in.substr(i)); if (ref.odd) { c.prune(); return; } }
    unsigned k = c.choose(n > 2 ? n + 1 : n, "cut"); string tr = show(in) + cutname(k); c.note(tr); c25_case(c, in, cuts_of(k, n), tr); }});
static Reg n2({"C25", "core", "every byte stream of the bound bytes over {IAC, DO, WILL, SB, SE, a, 31}, whole and byte by byte", {5, 6}, {7, 8}, [](Ctx& c) {
    static const string A{"\xff\xfd\xfb\xfa\xf0" "a\x1f", 7}; string in; Nvt ref;
    for (int i = 0; i < c.bound(); ++i) { in += A[c.choose(A.size(), "byte")]; ref.feed(in.substr(i)); if (ref.odd) { c.prune(); return; } }
    unsigned k = c.choose(2, "cut"); string tr = show(in) + cutname(k); c.note(tr); c25_case(c, in, cuts_of(k, in.size()), tr); }});
static Reg n3({"C25", "items", "every sequence of the bound items out of {WILL/WONT/DO/DONT of each of 6 options, sub-negotiations (empty, with data, with doubled IAC, with bytes 240 and 250 as data), every two-byte command, data bytes 'a', doubled IAC, NUL, CR NUL}, whole, byte by byte and cut inside every item", {2}, {3}, [](Ctx& c) {
    static vector<string> I; if (I.empty()) {
        for (char v : {WILL, WONT, DO, DONT}) for (char o : {'\x01', '\x03', '\x1f', '\x18', '\x22', '\0'}) I.push_back(string{IAC, v, o});
        I.push_back({IAC, SB, '\x1f', IAC, SE}); I.push_back({IAC, SB, '\x1f', 0, 'P', 0, '\x18', IAC, SE}); I.push_back({IAC, SB, '\x1f', IAC, IAC, 0, IAC, SE}); I.push_back({IAC, SB, '\x18', SE, 'x', SB, WILL, IAC, SE});
        for (int k = 0xf1; k <= 0xf9; ++k) I.push_back(string{IAC, (char)k}); I.push_back(string{IAC, SE});
        I.push_back("a"); I.push_back(string{IAC, IAC}); I.push_back(string(1, 0)); I.push_back(string("\r\0", 2)); }
    string in; for (int i = 0; i < c.bound(); ++i) in += I[c.choose(I.size(), "item")];
    unsigned k = c.choose(in.size() + 1, "cut"); string tr = show(in) + cutname(k); c.note(tr); c25_case(c, in, cuts_of(k, in.size()), tr); }});
static Reg n4({"C25", "options", "every option number 0..254 x WILL/WONT/DO/DONT, alone, repeated, and followed by data; every data byte", {1}, {1}, [](Ctx& c) {
    unsigned o = c.choose(255, "option"); unsigned v = c.choose(6, "command"); string in;
    if (v < 4) { in = {IAC, (char)(0xfb + v), (char)o}; switch (c.choose(3, "shape")) { case 1: in += in; break; case 2: in = "x" + in + "y"; break; } } else if (v == 4) in = string(1, (char)o) + "z" + string(1, (char)o); else in = {IAC, SB, (char)o, 'q', (char)o, IAC, SE, 'd'};
    unsigned k = c.choose(2, "cut"); string tr = show(in) + cutname(k); c.note(tr); c25_case(c, in, cuts_of(k, in.size()), tr); }});
static Reg n5({"C25", "long", "streams longer than the receive buffer: every length around 1024 and 2048 of data before a command or a doubled IAC, with and without cuts at the buffer boundary", {1}, {1}, [](Ctx& c) {
    static const vector<string> I = {{IAC, IAC}, {IAC, WILL, '\x1f'}, {IAC, DO, '\x03', IAC, DO, '\x05'}, {IAC, SB, '\x1f', 'a', IAC, IAC, 'b', IAC, SE}, {IAC, '\xf1'}};
    size_t base = 1024 * (1 + c.choose(2, "buffers")); size_t n = base - 8 + c.choose(12, "length"); string in(n, 'd'); for (size_t i = 0; i < n; ++i) in[i] = 'a' + i % 26; in += I[c.choose(I.size(), "item")] + "tail";
    unsigned k = c.choose(2, "cut at 1024"); vector<size_t> cuts; if (k) cuts.push_back(min(base, in.size() - 1)); string tr = "(" + to_string(n) + " bytes) " + show(in.substr(n)) + (k ? " cut at " + to_string(base) : ""); c.note(tr); c25_case(c, in, cuts, tr); }});
static Reg n7({"C25", "sizes", "that many (sizes around every power of two and round number up to the bound, and up to 5000) requests, doubled IACs, two-byte commands or sub-negotiations in one packet, a sub-negotiation that long, that much data between two requests, in packets of 1, 7, 1000, 1023, 1024 or 1025 bytes or whole", {0}, {0, 1}, [](Ctx& c) {
    static const unsigned big[] = {1500, 2500, 4095, 4096, 4097, 5000}; auto& v = sizes(c.bound()); unsigned ix = c.choose(v.size() + 6, "size"); size_t n = ix < v.size() ? v[ix] : big[ix - v.size()]; unsigned kind = c.choose(8, "kind"); static const size_t P[] = {0, 1, 7, 1000, 1023, 1024, 1025}; size_t pk = P[c.choose(7, "packets")]; if (pk == 1 && n > 1100) { c.prune(); return; } string in;
    switch (kind) {
        case 0: for (size_t i = 0; i < n; ++i) in += string{IAC, (char)(0xfb + i % 4), (char)(i % 255)}; break;
        case 1: for (size_t i = 0; i < n; ++i) in += string{IAC, IAC}; break;
        case 2: for (size_t i = 0; i < n; ++i) in += string{IAC, '\xf1'}; break;
        case 3: for (size_t i = 0; i < n; ++i) in += string{IAC, SB, '\x1f', (char)(i % 250), IAC, SE}; break;
        case 4: in = string{IAC, SB, '\x1f'} + string(n, 'q') + string{IAC, SE}; break;
        case 5: in = string{IAC, WILL, '\x1f'}; for (size_t i = 0; i < n; ++i) in += char('a' + i % 26); in += string{IAC, DO, '\x03'}; break;
        case 6: in = string{IAC, SB, '\x1f'}; for (size_t i = 0; i < n; ++i) in += i % 3 ? string(1, SE) : string{IAC, IAC}; in += string{IAC, SE}; break;
        case 7: for (size_t i = 0; i < n; ++i) in += i % 5 == 4 ? string{IAC, DO, '\x05'} : i % 5 == 2 ? string{IAC, IAC} : string(1, 'b' + i % 3); break;
    }
    in = "x" + in + "tail"; vector<size_t> cuts; if (pk) for (size_t i = pk; i < in.size(); i += pk) cuts.push_back(i); string tr = to_string(n) + " kind " + to_string(kind) + " packets " + to_string(pk); c.note(tr); c25_case(c, in, cuts, tr); }, 120});
static Reg n6({"C25", "two-clients", "two clients, their streams of items interleaved in every order, every cut of each in two", {2, 3}, {3}, [](Ctx& c) {
    static const vector<string> I = {{IAC, WILL, '\x1f'}, {IAC, SB, '\x1f', 'q', IAC, SE}, {IAC, IAC}, {'a', 'b'}, {IAC, DO, '\x18'}};
    RawRig r0(c); End e1; int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) abort(); e1.cfd = sv[0]; ends()[sv[1]] = &e1;
    auto s1 = make_shared<RawSession>(LASIO::ip::tcp::socket(r0.ctx, LASIO::ip::tcp::v4(), sv[1])); s1->Start(); r0.run(); e1.pull(); size_t z0 = r0.e.rx.size(), z1 = e1.rx.size();
    string in[2]; vector<string> part[2]; for (int k = 0; k < 2; ++k) for (int i = 0; i < c.bound(); ++i) { if (k && i) break; const string& it = I[c.choose(I.size(), "item")]; size_t q = 1 + c.choose(it.size() - 1, "cut"); part[k].push_back(it.substr(0, q)); part[k].push_back(it.substr(q)); in[k] += it; }
    size_t i0 = 0, i1 = 0; while (i0 < part[0].size() || i1 < part[1].size()) { bool one = i0 == part[0].size() || (i1 < part[1].size() && c.choose(2, "client")); if (one) e1.put(part[1][i1++]); else r0.e.put(part[0][i0++]); if (c.bound() > 2 || c.choose(2, "run")) r0.run(); c.step(); }
    r0.run(); e1.pull(); string tr = show(in[0]) + " / " + show(in[1]); c.note(tr);
    for (int k = 0; k < 2; ++k) { Nvt ref; ref.feed(in[k]); const string& got = k ? s1->got : r0.s->got; string rep = k ? e1.rx.substr(z1) : r0.e.rx.substr(z0), asks; for (size_t i = 2; i < rep.size(); i += 3) asks += rep[i]; if (got != ref.data || asks != ref.asks || rep.size() % 3) c.fail(tr + ": client " + to_string(k) + " data " + show(got) + " replies " + show(rep)); c.state(hs(got + rep)); }
    s1.reset(); e1.close_(); }});

// ---------------------------------------------------------------- C34
typedef pair<cli::detail::KeyType, char> TKey;
using KT = cli::detail::KeyType;
static string keyn(const TKey& k) { static const char* n[] = {"", "up", "down", "left", "right", "backspace", "delete", "home", "end", "enter", "eof", "ignored", "clear"}; return k.first == KT::ascii ? show(string(1, k.second)) : n[(int)k.first]; }
static string keys(const vector<TKey>& v) { string r; for (auto& k : v) r += keyn(k) + " "; return r; }
// reference decoder of data bytes; ignored keys are left out
struct KeyRef {
    string q; vector<TKey> out;
    void emit(KT k, char c = ' ') { out.push_back({k, c}); q.clear(); }
    void feed(char c)
    {
        q += c; char f = q[0];
        if (f == '\r') { if (q.size() == 2) { if (c == 0 || c == '\n') emit(KT::ret); else q.clear(); } return; }
        if (f == 27) {
            if (q.size() == 2) { if (c != '[') q.clear(); }
            else if (q.size() == 3) { switch (c) { case 'A': emit(KT::up); break; case 'B': emit(KT::down); break; case 'C': emit(KT::right); break; case 'D': emit(KT::left); break; case 'F': emit(KT::end); break; case 'H': emit(KT::home); break; } }
            else if (q.size() == 4) { if (c == '~') emit(KT::canc); else q.clear(); }
            return;
        }
        switch (static_cast<unsigned char>(c)) { case 4: case 255: emit(KT::eof); break; case 8: case 127: emit(KT::backspace); break; case 12: emit(KT::clear); break; default: emit(KT::ascii, c); }
    }
};
struct KeyRig {
    cli::Cli cl; ASIOSCHED sch; TELNETSRV srv; vector<unique_ptr<End>> e; vector<shared_ptr<cli::detail::CliTelnetSession>> s; vector<vector<TKey>> got;
    KeyRig(Ctx& c, int n) : cl(make_unique<cli::Menu>("cli")), srv((reset_net(&c), cl), sch, "127.0.0.1", 0)
    {
        got.resize(n);
        for (int i = 0; i < n; ++i) {
            int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) abort(); e.push_back(make_unique<End>()); e[i]->cfd = sv[0]; ends()[sv[1]] = e[i].get();
            s.push_back(dynamic_pointer_cast<cli::detail::CliTelnetSession>(srv.CreateSession(LASIO::ip::tcp::socket(sch.AsioContext(), LASIO::ip::tcp::v4(), sv[1]))));
            s[i]->Register([this, i](TKey k) { if (k.first != KT::ignored) got[i].push_back(k); }); s[i]->Start();
        }
    }
    void run() { for (int i = 0; i < 100000 && sch.AsioContext().poll_one(); ++i) {} for (auto& x : e) x->pull(); }
    ~KeyRig() { s.clear(); for (auto& x : e) x->close_(); ends().clear(); }
};
static string esc255(const string& d) { string r; for (char c : d) { r += c; if (c == IAC) r += c; } return r; }
static void c34_case(Ctx& c, const string& data, const string& wire, unsigned cut, const string& tr)
{
    KeyRef ref; for (char x : data) ref.feed(x);
    KeyRig r(c, 1); size_t p = 0; for (size_t q : cuts_of(cut, wire.size())) { r.e[0]->put(wire.substr(p, q - p)); r.run(); p = q; } r.e[0]->put(wire.substr(p)); r.run(); c.step(data.size());
    if (r.got[0] != ref.out) c.fail(tr + ": keys " + keys(r.got[0]) + ", expected " + keys(ref.out));
    c.state(hs(wire, cut)); c.outcome(hs(keys(r.got[0])));
}
static Reg q1({"C34", "bytes", "every sequence of up to the bound data bytes over {a, CR, LF, NUL, ESC, [, A, B, C, D, F, H, 3, ~, 127, 4, 8, 12, 255, TAB}, in one packet, byte by byte, and with every single cut", {3, 4}, {4}, [](Ctx& c) {
    static const string A{"a\r\n\0\x1b[ABCDFH3~\x7f\x04\x08\x0c\xff\t", 20}; string d; int n = 1 + c.choose(c.bound(), "length"); for (int i = 0; i < n; ++i) d += A[c.choose(A.size(), "byte")];
    string w = esc255(d); unsigned k = c.choose(w.size() > 2 ? w.size() + 1 : w.size(), "cut"); string tr = show(d) + cutname(k); c.note(tr); c34_case(c, d, w, k, tr); }});
static Reg q2({"C34", "escape-core", "every sequence of the bound bytes over {ESC, [, A, 3, ~, CR, NUL, a}, in one packet or byte by byte", {4, 5}, {6}, [](Ctx& c) {
    static const string A{"\x1b[A3~\r\0a", 8}; string d; for (int i = 0; i < c.bound(); ++i) d += A[c.choose(A.size(), "byte")]; unsigned k = c.choose(2, "cut"); string tr = show(d) + cutname(k); c.note(tr); c34_case(c, d, esc255(d), k, tr); }});
static Reg q3({"C34", "every-byte", "every byte value alone, after CR, after ESC, after ESC [, after ESC [ 3, each followed by 'z'", {1}, {1}, [](Ctx& c) {
    static const string P[] = {"", "\r", "\x1b", "\x1b[", "\x1b[3", "a", string("\r\0", 2)}; string d = P[c.choose(7, "prefix")] + string(1, (char)c.choose(256, "byte")) + "z"; unsigned k = c.choose(2, "cut"); string tr = show(d) + cutname(k); c.note(tr); c34_case(c, d, esc255(d), k, tr); }});
static Reg q4({"C34", "with-commands", "key sequences with a telnet command (negotiation, sub-negotiation, NOP) inserted at every position, every cut", {1}, {2}, [](Ctx& c) {
    static const string K[] = {"\x1b[A", "\x1b[3~", string("\r\0", 2), "\r\n", "a\x7f", "\x1b[Hb", "\x04", "\x1bOx", "\xff"}; static const string T[] = {{IAC, WILL, '\x1f'}, {IAC, SB, '\x1f', 0, 'A', 0, '~', IAC, SE}, {IAC, '\xf1'}, {IAC, DONT, '\x01'}, {IAC, DO, '\x03'}};
    string d, w; for (int i = 0; i < c.bound(); ++i) { string k = K[c.choose(9, "key")]; d += k; size_t p = c.choose(k.size() + 1, "position"); w += esc255(k.substr(0, p)) + T[c.choose(5, "telnet command")] + esc255(k.substr(p)); }
    unsigned k = c.choose(w.size() + 1, "cut"); string tr = show(w) + cutname(k); c.note(tr); c34_case(c, d, w, k, tr); }});
static Reg q5({"C34", "two-clients", "two clients sending key sequences, byte by byte, in every interleaving", {2, 3}, {3}, [](Ctx& c) {
    static const string K[] = {"\x1b[A", "\x1b[3~", string("\r\0", 2), "ab", "\x1b[H", "\xff\xff"}; KeyRig r(c, 2); string d[2]; d[0] = K[c.choose(6, "key")]; d[1] = K[c.choose(6, "key")]; if (c.bound() > 2) d[0] += K[c.choose(6, "key")];
    size_t i[2] = {0, 0}; string tr = show(d[0]) + " / " + show(d[1]) + " order "; while (i[0] < d[0].size() || i[1] < d[1].size()) { int k = i[0] == d[0].size() || (i[1] < d[1].size() && c.choose(2, "client")); r.e[k]->put(d[k].substr(i[k]++, 1)); tr += to_string(k); r.run(); c.step(); }
    for (int k = 0; k < 2; ++k) { Nvt n; n.feed(d[k]); KeyRef ref; for (char x : n.data) ref.feed(x); if (r.got[k] != ref.out) c.fail(tr + ": client " + to_string(k) + " keys " + keys(r.got[k]) + ", expected " + keys(ref.out)); } c.state(hs(tr)); c.note(tr); }});
static Reg q6({"C34", "long", "every key sequence (arrows, delete, home, end, enter in three forms, backspace, escape and another character, 255) and telnet command between keys at every offset from 1019 to 1026 and 2043 to 2050 of the stream, sent whole, cut at 1024 or in packets of 1000; and up to 4000 keys in one packet", {1}, {1}, [](Ctx& c) {
    static const vector<string> K = {"\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[3~", "\x1b[H", "\x1b[F", string("\r\0", 2), "\r\n", "\x7f", "\x08", "\x1bx", "\xff", "\x1b[x", "\x04", "\t"}; static const size_t P[] = {0, 1000, 1024};
    unsigned shape = c.choose(2, "shape"); string d; if (shape == 0) { size_t o = (c.choose(2, "buffer") + 1) * 1024 - 5 + c.choose(8, "offset"); for (size_t i = 0; i < o; ++i) d += char('a' + i % 26); d += K[c.choose(K.size(), "key")] + "z"; } else { static const size_t N[] = {100, 255, 256, 257, 341, 342, 512, 1000, 1024, 4000}; size_t n = N[c.choose(10, "keys")]; unsigned k = c.choose(K.size() + 1, "key"); for (size_t i = 0; i < n; ++i) d += K[k < K.size() ? k : i % (K.size() - 2)]; d += "z"; }
    string w = esc255(d); unsigned pi = c.choose(3, "packets"); size_t pk = P[pi]; if (shape == 0 && pi == 2 && c.choose(2, "telnet command before the key")) w.insert(w.size() - 4, string{IAC, '\xf1'});
    Nvt nv; nv.feed(w); KeyRef ref; for (char x : nv.data) ref.feed(x); if (nv.odd) { c.prune(); return; }
    KeyRig r(c, 1); for (size_t p = 0; p < w.size(); p += pk ? pk : w.size()) { r.e[0]->put(w.substr(p, pk ? pk : string::npos)); r.run(); c.step(); } r.run();
    if (r.got[0] != ref.out) { size_t i = 0; while (i < ref.out.size() && i < r.got[0].size() && ref.out[i] == r.got[0][i]) ++i; c.fail("(" + to_string(w.size()) + " bytes) ..." + show(w.substr(w.size() - 12)) + ": key " + to_string(i) + " differs: " + keys(vector<TKey>(r.got[0].begin() + i, r.got[0].begin() + min(r.got[0].size(), i + 4))) + ", expected " + keys(vector<TKey>(ref.out.begin() + i, ref.out.begin() + min(ref.out.size(), i + 4)))); }
    c.state(hs(w, pk)); c.note(to_string(w.size()) + " bytes"); }, 120});

// ---------------------------------------------------------------- a server with sessions
}
namespace net { inline namespace NETNS {
TRig::TRig(Ctx& ctx, unsigned acts) : c(ctx)
{
    reset_net(&ctx);
    auto root = make_unique<cli::Menu>("cli");
    root->Insert("hi", [this](ostream& o) { ++hi; o << "HELLO\n"; });
    root->Insert("boom", [](ostream&) { throw runtime_error("boom!"); });
    root->Insert("big", [](ostream& o) { o << string(5000, 'x') << "\n"; });
    root->Insert("drop", [this](ostream& o) { if (on_drop) on_drop(); o << "after\n" << "more\n" << flush; });
    root->Insert("say", [](ostream&) { cli::Cli::cout() << "NEWS\n" << flush; });
    auto sub = make_unique<cli::Menu>("s", "", "cli"); sub->Insert("b", [](ostream& o) { o << "B\n"; }); root->Insert(move(sub));
    cl = make_unique<cli::Cli>(move(root));
    if (acts & 1) cl->EnterAction([this](ostream& o) { last_out = &o; o << "<GE>"; });
    if (acts & 8) cl->ExitAction([](ostream& o) { o << "<GX>"; });
    sch = make_unique<ASIOSCHED>();
    srv = make_unique<TELNETSRV>(*cl, *sch, "127.0.0.1", 0);
    if (acts & 2) srv->EnterAction([](ostream& o) { o << "<SE>"; });
    if (acts & 4) srv->ExitAction([](ostream& o) { o << "<SX>"; });
}
End& TRig::connect()
{
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) abort();
    e.push_back(make_unique<End>()); End& x = *e.back(); x.cfd = sv[0]; x.sfd = sv[1]; ends()[sv[1]] = &x;
    auto s = srv->CreateSession(LASIO::ip::tcp::socket(sch->AsioContext(), LASIO::ip::tcp::v4(), sv[1])); x.sess = s; s->Start(); s.reset();
    x.pull(); return x;
}
bool TRig::one() { bool r = sch->AsioContext().poll_one(); for (auto& x : e) if (!x->noread) x->pull(); return r; }
void TRig::run() { for (int i = 0; i < 1000000 && !c.failed() && one(); ++i) {} }
TRig::~TRig() { for (auto& x : e) x->close_(); srv.reset(); sch.reset(); cl.reset(); ends().clear(); }
}}
namespace {
static const string PROMPT = "cli> ";
// a client types a line and gets the answer, once
static string works(TRig& r, End& v, const char* who)
{
    size_t z = v.rx.size(); int h = r.hi; v.put(string("hi\r\0", 4)); r.run(); string n = plain(v.rx.substr(z));
    if (r.hi != h + 1) return string(who) + ": command ran " + to_string(r.hi - h) + " times";
    if (n != "hi\nHELLO\n" + PROMPT) return string(who) + " received " + show(n);
    return "";
}

// ---------------------------------------------------------------- C26
static string nvt(const string& t) { string r; for (char c : t) { if (c == '\n') r += '\r'; if (c == IAC) r += c; r += c; } return r; }
// a carriage return of the text may be sent with or without the NUL of the protocol
static string nocrnul(const string& t) { string r; for (char c : t) { if (c == 0 && !r.empty() && r.back() == '\r') continue; r += c; } return r; }
static const vector<pair<const char*, function<void(ostream&, string&)>>>& writes()
{
    static vector<pair<const char*, function<void(ostream&, string&)>>> w = {
        {"string", [](ostream& o, string& t) { o << "ab c"; t += "ab c"; }},
        {"newlines", [](ostream& o, string& t) { o << "x\n\ny\n"; t += "x\n\ny\n"; }},
        {"255", [](ostream& o, string& t) { o << "p\xff" "q\xff\xff\n"; t += "p\xff" "q\xff\xff\n"; }},
        {"telnet-like", [](ostream& o, string& t) { o << "\xff\xfb\x01\xff\xf0"; t += "\xff\xfb\x01\xff\xf0"; }},
        {"char", [](ostream& o, string& t) { o << 'c'; t += 'c'; }},
        {"char newline", [](ostream& o, string& t) { o << '\n'; t += '\n'; }},
        {"put 255", [](ostream& o, string& t) { o.put('\xff'); t += '\xff'; }},
        {"number", [](ostream& o, string& t) { o << 42 << -7; t += "42-7"; }},
        {"endl", [](ostream& o, string& t) { o << endl; t += '\n'; }},
        {"NUL", [](ostream& o, string& t) { o << string("a\0b", 3); t += string("a\0b", 3); }},
        {"empty", [](ostream& o, string&) { o << "" << flush; }},
        {"long", [](ostream& o, string& t) { string s; for (int i = 0; i < 3000; ++i) s += i % 61 == 60 ? '\n' : i % 97 == 96 ? '\xff' : char('a' + i % 26); o << s; t += s; }},
        {"CR", [](ostream& o, string& t) { o << "50%\r" << flush; t += "50%\r"; }},
        {"CR LF", [](ostream& o, string& t) { o << "d\r\n"; t += "d\r\n"; }},
        {"streambuf", [](ostream& o, string& t) { for (char ch : string("k\n\xff")) { o.rdbuf()->sputc(ch); t += ch; } }},
    };
    return w;
}
static Reg w1({"C26", "writes", "every sequence of the bound writes out of 15 (strings, newlines, 255 bytes, bytes that look like telnet commands, characters, numbers, endl, NUL, CR, CR LF, nothing, 3000 bytes with newlines and 255s, sputc) on the stream of a connected session: the bytes at the client", {2, 3}, {4}, [](Ctx& c) {
    TRig r(c, 1); End& e = r.connect(); size_t z = e.rx.size(); string t, tr; ostream& o = *r.last_out; auto& W = writes();
    for (int i = 0; i < c.bound(); ++i) { unsigned k = c.choose(W.size(), "write"); W[k].second(o, t); tr += string(W[k].first) + "; "; c.step(); }
    o << flush; r.run(); string got = e.rx.substr(z); if (nocrnul(got) != nocrnul(nvt(t))) { size_t d = 0; while (d < got.size() && d < nvt(t).size() && got[d] == nvt(t)[d]) ++d; c.fail(tr + "the client received " + to_string(got.size()) + " bytes, expected " + to_string(nvt(t).size()) + "; first difference at " + to_string(d) + ": " + show(got.substr(d, 40)) + " instead of " + show(nvt(t).substr(d, 40))); }
    if (!o.good()) c.fail(tr + "the stream is in a failed state"); c.state(hs(got)); c.note(tr); }});
static Reg w6({"C26", "two-clients", "every sequence of the bound writes out of 7 (string, newline, 255, CR, CR LF, endl, sputc) on the streams of two connected sessions, each write on either of them: what each client receives is what was written to it", {3}, {4}, [](Ctx& c) {
    TRig r(c, 1); End* e[2]; ostream* o[2]; for (int i = 0; i < 2; ++i) { e[i] = &r.connect(); r.run(); o[i] = r.last_out; } if (o[0] == o[1]) { c.fail("two clients share a stream"); return; }
    size_t z[2] = {e[0]->rx.size(), e[1]->rx.size()}; string t[2], tr; auto& W = writes(); static const unsigned P[] = {0, 5, 2, 10, 11, 8, 14}; auto name = [&](unsigned k) { return string(W[P[k]].first); };
    for (int i = 0; i < c.bound(); ++i) { unsigned k = c.choose(7, "write"), x = c.choose(2, "to"); W[P[k]].second(*o[x], t[x]); tr += (x ? "second: " : "first: ") + name(k) + "; "; c.step(); }
    for (int i = 0; i < 2; ++i) *o[i] << flush; r.run(); for (int i = 0; i < 2 && !c.failed(); ++i) { string got = e[i]->rx.substr(z[i]); if (nocrnul(got) != nocrnul(nvt(t[i]))) c.fail(tr + "client " + to_string(i + 1) + " received " + show(got) + " instead of " + show(nvt(t[i]))); c.state(hs(got, i)); } c.note(tr); }});
static Reg w2({"C26", "partial-sends", "every sequence of 2 writes x every placement of up to the bound short, interrupted or would-block socket sends, before and after the session started reading", {1, 2}, {3}, [](Ctx& c) {
    TRig r(c, 1); End& e = r.connect(); if (c.choose(2, "reading started")) { e.put("x"); r.run(); } r.run(); size_t z = e.rx.size(); string t, tr; ostream& o = *r.last_out; auto& W = writes(); static const unsigned P[] = {1, 2, 4, 11};
    inj_send = true; budget = c.bound();
    for (int i = 0; i < 2; ++i) { unsigned k = P[c.choose(4, "write")]; tr += string(W[k].first) + "; "; W[k].second(o, t); }
    inj_send = false; o << "end" << flush; t += "end"; r.run(); string got = e.rx.substr(z); if (got != nvt(t)) c.fail(tr + "the client received " + to_string(got.size()) + " bytes " + show(got.substr(0, 60)) + ", expected " + to_string(nvt(t).size()) + " " + show(nvt(t).substr(0, 60))); c.state(hs(got, budget)); c.note(tr); }});
static Reg w3({"C26", "session-start", "the opening of a session (negotiation, enter actions, prompt) and a command, with up to the bound short, interrupted or would-block sends anywhere", {1, 2}, {3}, [](Ctx& c) {
    static string ref; if (ref.empty()) { TRig r(c, 3); End& e = r.connect(); e.put(string("hi\r\0", 4)); r.run(); ref = e.rx; }
    TRig r(c, 3); inj_send = true; budget = c.bound(); End& e = r.connect(); e.put(string("hi\r\0", 4)); r.run(); inj_send = false;
    if (e.rx != ref) c.fail("the client received " + show(e.rx) + ", without disturbance " + show(ref)); c.state(hs(e.rx, budget)); c.note(show(e.rx)); }});
static Reg w4({"C26", "commands", "every sequence of the bound lines out of {hi, big, boom, say, s, b, help, nope, blank} typed in a session, and output broadcast from outside: the text the client receives is the text of the same session on a local stream, newlines as CR LF", {2, 3}, {4}, [](Ctx& c) {
    static const char* L[] = {"hi", "big", "boom", "say", "s", "b", "help", "nope", ""}; TRig r(c, 3); End& e = r.connect();
    ostringstream lo; cli::CliSession ls(*r.cl, lo, 10); ls.EnterAction([](ostream& o) { o << "<SE>"; }); ls.Enter(); ls.Prompt(); string tr, exp = lo.str(); lo.str("");
    for (int i = 0; i < c.bound(); ++i) {
        string l = L[c.choose(9, "line")]; tr += l + "; "; lo.str(""); e.put(l + string("\r\0", 2)); r.run(); c.step();
        // a broadcast reaches the local session as well
        if (lo.str().empty()) ls.Feed(l);
        ls.Prompt(); exp += l + "\n" + lo.str();
    }
    string got = plain(e.rx), want = exp;
    if (got != want) c.fail(tr + "the client received " + show(got.substr(0, 300)) + ", expected " + show(want.substr(0, 300)));
    c.state(hs(got)); c.note(tr); }});

static Reg w5({"C26", "sizes", "texts of sizes around every power of two and round number up to the bound and up to 1000000 characters, with a newline or a 255 at the start, the end, in the middle, everywhere or nowhere, written at once, in pieces, character by character, or through the buffer; also split into two writes around the size", {0}, {0, 1}, [](Ctx& c) {
    static const unsigned big[] = {4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 300000, 1000000}; auto& v = sizes(c.bound()); unsigned ix = c.choose(v.size() + 12, "size"); size_t n = ix < v.size() ? v[ix] : big[ix - v.size()]; unsigned pat = c.choose(6, "pattern"), how = c.choose(4, "how");
    if (n > 70000 && (how == 2 || pat > 2)) { c.prune(); return; }
    string t; for (size_t i = 0; i < n; ++i) t += char('a' + i % 26); switch (pat) { case 1: t[0] = '\n'; t[n - 1] = '\n'; break; case 2: t[n / 2] = '\xff'; t[n - 1] = '\xff'; break; case 3: t = string(n, '\n'); break; case 4: t = string(n, '\xff'); break; case 5: for (size_t i = 0; i < n; ++i) if (i % 7 == 3) t[i] = '\n'; else if (i % 11 == 5) t[i] = '\xff'; break; }
    TRig r(c, 1); End& e = r.connect(); size_t z = e.rx.size(); ostream& o = *r.last_out; string exp = nvt(t) + "!";
    switch (how) { case 0: o << t; break; case 1: for (size_t p = 0; p < n; p += 100) o << t.substr(p, 100); break; case 2: for (char x : t) o << x; break; case 3: o.write(t.data(), n - 1); o.rdbuf()->sputn(t.data() + n - 1, 1); break; }
    o << "!" << flush; r.run(); c.step(); string got = e.rx.substr(z), tr = to_string(n) + " characters, pattern " + to_string(pat) + ", how " + to_string(how);
    if (got != exp) { size_t d = 0; while (d < got.size() && d < exp.size() && got[d] == exp[d]) ++d; c.fail(tr + ": the client received " + to_string(got.size()) + " bytes, expected " + to_string(exp.size()) + "; first difference at " + to_string(d)); }
    if (!o.good()) c.fail(tr + ": the stream is in a failed state"); c.state(mix(n, pat * 4 + how)); c.note(tr); }, 120});

// ---------------------------------------------------------------- C27
struct Act { const char* name; string bytes; };
static const vector<Act>& acts27()
{
    static const vector<Act> a = {
        {"'a'", "a"}, {"hi+enter", string("hi\r\0", 4)}, {"exit+enter", string("exit\r\0", 6)}, {"EOT", "\x04"}, {"exit+enter twice", string("exit\r\0exit\r\0", 12)}, {"EOT EOT", "\x04\x04"},
        {"big+enter", string("big\r\0", 5)}, {"s+enter", string("s\r\0", 3)}, {"half ESC", "\x1b["}, {"CR", "\r"}, {"IAC", "\xff"}, {"IAC SB", "\xff\xfa"}, {"DO 6", "\xff\xfd\x06"}, {"TAB", "\t"}, {"UP", "\x1b[A"}, {"2000 bytes", string(2000, 'z')}, {"clear", "\x0c"}, {"junk", string("\xff\xf0\x80\xff\xff\0\x01\n\x1b~", 11)},
        {"boom+enter", string("boom\r\0", 6)},
    };
    return a;
}
static void finish27(Ctx& c, TRig& r, End* v, const string& tr, vector<End*> gone)
{
    r.run(); inj_send = inj_recv = inj_accept = false;
    for (End* x : gone) { x->close_(); r.run(); if (!x->sess.expired()) { c.fail(tr + ": the session object of a client that is gone is not released"); return; } }
    string e = works(r, *v, "another session"); if (!e.empty()) { c.fail(tr + ": " + e); return; }
    End& n = r.connect(); n.victim = true; r.run(); if (plain(n.rx) != "<GE><SE>" + PROMPT) { c.fail(tr + ": a new client receives " + show(plain(n.rx))); return; }
    e = works(r, n, "a new client"); if (!e.empty()) { c.fail(tr + ": " + e); return; }
    n.put("\x04"); r.run(); if (!n.sess.expired() || !n.eof) c.fail(tr + ": EOT does not end a new client's session");
    if (c.failed()) return;
    e = works(r, *v, "another session"); if (!e.empty()) c.fail(tr + ": " + e);
}
static const char* gone_name[] = {"", "close", "reset", "end of sending", "close without reading"};
static void leave(End& a, unsigned how) { switch (how) { case 1: a.pull(); a.close_(); break; case 2: a.reset_(); break; case 3: syscall(SYS_shutdown, a.cfd, SHUT_WR); break; case 4: a.noread = true; break; } }
static Reg v1({"C27", "attacker", "one client doing every sequence of up to the bound actions out of 19 inputs (text, commands, repeated exit, partial escape and telnet sequences, long and binary data) or closing, resetting, ending its sending; after each action the loop runs no, one or all handlers; another session and a new client must work, the session object be released", {2}, {3}, [](Ctx& c) {
    TRig r(c, 15); End& v = r.connect(); v.victim = true; End& a = r.connect(); string tr; auto& A = acts27(); bool left = false; r.on_drop = [&] { a.reset_(); };
    for (int i = 0; i < c.bound() && !left; ++i) {
        unsigned k = c.choose(A.size() + 3, "action");
        if (k < A.size()) { a.put(A[k].bytes); tr += A[k].name; } else { leave(a, k - A.size() + 1); left = true; tr += gone_name[k - A.size() + 1]; }
        unsigned n = c.choose(3, "handlers"); if (n == 1) r.one(); else if (n == 2) r.run(); tr += n == 0 ? " | " : n == 1 ? " (one handler) | " : " (all handlers) | "; c.step();
    }
    if (!left && c.choose(2, "then")) { a.reset_(); tr += "reset"; } else if (!left) tr += "close";
    c.note(tr); finish27(c, r, &v, tr, {&a}); c.state(hs(a.rx, r.hi)); }});
static size_t cnt27(const string& s) { size_t n = 0; for (size_t p = s.find("NEWS\n"); p != string::npos; p = s.find("NEWS\n", p + 1)) ++n; return n; }
static Reg v2({"C27", "close-anywhere", "a client sends a script of two commands and leaves (close, reset, half-close) after every number of handlers, and every prefix of the script", {1}, {2}, [](Ctx& c) {
    static const string S[] = {string("hi\r\0exit\r\0x", 11), string("big\r\0hi\r\0", 9), string("exit\r\0exit\r\0", 12), "\x04" "hi\r\n", string("s\r\0boom\r\0", 9), string("say\r\0hi\r\0", 9)};
    TRig r(c, 15); End& v = r.connect(); v.victim = true; End& a = r.connect(); string in; for (int i = 0; i < c.bound(); ++i) in += S[c.choose(6, "script")]; size_t n = c.choose(in.size() + 1, "bytes sent"); unsigned how = 1 + c.choose(3, "how"); unsigned steps = c.choose(2 * n + 3, "handlers before leaving");
    a.put(in.substr(0, n)); for (unsigned i = 0; i < steps; ++i) r.one(); leave(a, how); string tr = show(in.substr(0, n)) + ", " + to_string(steps) + " handlers, " + gone_name[how]; c.note(tr); size_t z = v.rx.size(); r.run(); c.step();
    string nv = plain(v.rx.substr(z)); if (nv.size() % 5 || cnt27(nv) * 5 != nv.size()) { c.fail(tr + ": another session received " + show(nv)); return; }
    finish27(c, r, &v, tr, {&a}); c.state(hs(a.rx, r.hi)); }});
static Reg v3({"C27", "socket-faults", "a client's session runs a script while up to the bound socket calls of its connection are short, interrupted, would block, or fail with ECONNRESET, EPIPE or ETIMEDOUT, at every point", {1, 2}, {3}, [](Ctx& c) {
    static const string S[] = {string("hi\r\0big\r\0exit\r\0", 15), string("boom\r\0\x04", 7)}; TRig r(c, 15); End& v = r.connect(); v.victim = true; string in = S[c.choose(2, "script")];
    inj_send = inj_recv = send_err = true; budget = c.bound(); End& a = r.connect(); a.put(in); r.run(); string tr = show(in) + " with faults"; c.note(tr); finish27(c, r, &v, tr, {&a}); c.state(hs(a.rx, budget)); c.outcome(hs(a.rx)); }});
static Reg v9({"C27", "broken-connection", "after every number of handlers of a script, the client's connection fails for good (each receive fails with one of 5 errors, each send with EPIPE), with data already received or not: the session ends by itself, the others are served", {1}, {2}, [](Ctx& c) {
    static const int E[] = {ETIMEDOUT, ECONNRESET, EHOSTUNREACH, ENOTCONN, ENOMEM}; static const string S[] = {string("hi\r\0s\r\0", 7), string("big\r\0boom\r\0", 11), string("say\r\0exit\r\0", 11)};
    TRig r(c, 15); End& v = r.connect(); v.victim = true; string in; for (int i = 0; i < c.bound(); ++i) in += S[c.choose(3, "script")]; unsigned k = c.choose(5, "error"), steps = c.choose(in.size() + 6, "handlers before"); bool late = c.choose(2, "sent later"); End& a = r.connect();
    string tr = show(in) + ", " + to_string(steps) + " handlers, then " + strerror(E[k]); c.note(tr); if (!late) a.put(in); for (unsigned i = 0; i < steps; ++i) r.one(); a.broken = E[k]; a.put(late ? in : "hi"); r.run(); if (c.failed()) return; c.step();
    if (!a.sess.expired()) { c.fail(tr + ": the session object of a client that is gone is not released"); return; }
    finish27(c, r, &v, tr, {&a}); c.state(hs(a.rx, r.hi)); }});
static Reg v4({"C27", "gone-during-command", "the client closes or resets while its command runs and is about to write; or another client is closed by that command; commands queued behind it", {1}, {2}, [](Ctx& c) {
    TRig r(c, 15); End& v = r.connect(); v.victim = true; End& a = r.connect(); End& b = r.connect(); unsigned how = c.choose(4, "how"); unsigned who = c.choose(3, "who"); bool twice = c.choose(2, "more commands queued"); int times = 0;
    r.on_drop = [&] { if (times++) return; if (who != 1) leave(a, 1 + how % 3); if (who != 0) leave(b, 1 + how % 3); if (how == 3) r.one(); /* a nested handler of the loop */ };
    string in("drop\r\0", 6); if (twice) in += string("hi\r\0exit\r\0\x04", 11); b.put("hi"); a.put(in); if (c.bound() > 1) { size_t cut = c.choose(in.size(), "handlers first"); for (size_t i = 0; i < cut; ++i) r.one(); b.put(string("\r\0", 2)); }
    r.run(); string tr = string("who ") + to_string(who) + " how " + to_string(how); c.note(tr); c.step(); finish27(c, r, &v, tr, {&a, &b}); c.state(hs(a.rx + b.rx, r.hi)); }});
static Reg v5({"C27", "two-attackers", "two clients, every interleaving of up to the bound actions (10 kinds each), no or all handlers between", {2, 3}, {4}, [](Ctx& c) {
    static const unsigned P[] = {0, 2, 3, 4, 6, 13}; TRig r(c, 15); End& v = r.connect(); v.victim = true; End* x[2] = {&r.connect(), &r.connect()}; string tr; auto& A = acts27();
    for (int i = 0; i < c.bound(); ++i) { unsigned k = c.choose(2 * 10, "action"); End& a = *x[k / 10]; if (a.cfd < 0) { c.prune(); return; } unsigned j = k % 10; tr += to_string(k / 10) + ":"; if (j < 6) { a.put(A[P[j]].bytes); tr += A[P[j]].name; } else if (j == 9) { a.put(string("say\r\0", 5)); tr += "say+enter"; } else { leave(a, j - 5); tr += gone_name[j - 5]; } bool run = c.choose(2, "run"); if (run) r.run(); tr += run ? " (run) " : " "; c.step(); }
    c.note(tr); r.run(); size_t z = v.rx.size(); (void)z; finish27(c, r, &v, tr, {x[0], x[1]}); c.state(hs(tr)); }});
static Reg v6({"C27", "slow-client", "a client that stops reading (its socket accepts nothing more) while its session produces output, at every send of a script: the loop must not block", {1}, {1}, [](Ctx& c) {
    TRig r(c, 15); End& v = r.connect(); v.victim = true; End& a = r.connect(); r.run(); a.stalled = true; unsigned k = c.choose(3, "input"); a.put(k == 0 ? string("a") : k == 1 ? string("hi\r\0", 4) : string("\xff\xfd\x06")); r.run(); c.step();
    if (in_poll_block) { c.fail("the loop waits forever for a client that does not read: no other session is served"); return; }
    a.stalled = false; finish27(c, r, &v, "slow client", {&a}); c.state(k); c.note("slow client"); }});
static Reg v7({"C27", "bytes", "every sequence of the bound bytes over {a, 255, 240, 250, 253, ESC, [, CR, NUL, 4, TAB, newline, 12, 127} in one packet, then the connection is reset or closed", {3, 4}, {5}, [](Ctx& c) {
    static const string A{"a\xff\xf0\xfa\xfd\x1b[\r\0\x04\t\n\x0c\x7f", 14}; string in; for (int i = 0; i < c.bound(); ++i) in += A[c.choose(A.size(), "byte")]; bool rst = c.choose(2, "reset");
    TRig r(c, 15); End& v = r.connect(); v.victim = true; End& a = r.connect(); a.put(in); r.run(); if (rst) a.reset_(); c.step(); string tr = show(in) + (rst ? " reset" : " close"); c.note(tr);
    r.run(); a.close_(); r.run(); if (!a.sess.expired()) c.fail(tr + ": the session object of a client that is gone is not released"); string e = works(r, v, "another session"); if (!e.empty()) c.fail(tr + ": " + e); c.state(hs(a.rx)); }});

static size_t open_fds() { size_t n = 0; for (int f = 3; f < 1024; ++f) if (syscall(SYS_fcntl, f, F_GETFD) != -1) ++n; return n; }
static Reg v8({"C27", "many", "10 to 300 clients one after the other, or 10 to 100 at once, each doing one of 19 inputs and leaving in one of 3 ways or by exit: afterwards no descriptor and no session is left over, the others and new clients are served", {0}, {0, 1}, [](Ctx& c) {
    static const int N[] = {10, 40, 100, 300}; bool together = c.choose(2, "at once"); int n = N[c.choose(c.bound() ? (together ? 3 : 4) : 2, "clients")]; auto& A = acts27(); unsigned k = c.choose(A.size() + 1, "input"), how = c.choose(5, "how they leave"); string tr = to_string(n) + (together ? " clients at once, " : " clients, ") + (k < A.size() ? A[k].name : "mixed") + ", " + (how < 3 ? gone_name[how + 1] : how == 3 ? "exit" : "mixed");
    TRig r(c, 15); End& v = r.connect(); v.victim = true; r.run(); size_t fds = open_fds(); c.note(tr); vector<weak_ptr<void>> w; vector<End*> a;
    auto act = [&](int i) { if (k < A.size()) a[i]->put(A[k].bytes); else a[i]->put(A[i * 7 % A.size()].bytes); r.run(); };
    auto go = [&](int i) { unsigned h = how == 4 ? i % 4 : how; if (h < 3) leave(*a[i], h + 1); else a[i]->put(string("\r\0\r\0exit\r\0", 10)); r.run(); if (h >= 2) { a[i]->close_(); r.run(); } c.step(); };
    auto open = [&] { End& x = r.connect(); a.push_back(&x); w.push_back(x.sess); };
    if (together) { for (int i = 0; i < n; ++i) open(); for (int i = 0; i < n; ++i) act(i); for (int i = 0; i < n; ++i) go(i * 3 % n == 0 && n % 3 == 0 ? i : (n % 3 ? i * 3 % n : i)); for (int i = 0; i < n; ++i) if (a[i]->cfd >= 0) go(i); } else for (int i = 0; i < n; ++i) { open(); act(i); go(i); if (a[i]->cfd >= 0) { a[i]->close_(); r.run(); } }
    r.run(); for (auto& x : w) if (!x.expired()) { c.fail(tr + ": the session object of a client that is gone is not released"); return; }
    for (auto& x : r.e) if (x.get() != &v) { ends().erase(x->sfd); } ends()[v.sfd] = &v;
    if (open_fds() != fds) { c.fail(tr + ": " + to_string(open_fds()) + " descriptors are open, before the clients came " + to_string(fds)); return; }
    finish27(c, r, &v, tr, {}); c.state(hs(tr)); }, 120});

// ---------------------------------------------------------------- C28 (and C17 for telnet)
static size_t cnt(const string& s, const string& w) { size_t n = 0; for (size_t p = s.find(w); p != string::npos; p = s.find(w, p + 1)) ++n; return n; }
static string greet(unsigned a) { return string(a & 1 ? "<GE>" : "") + (a & 2 ? "<SE>" : "") + PROMPT; }
// judges everything a client received in a session
static string judge28(const End& e, unsigned acts, bool ended, bool opened = true)
{
    if (opened) {
        Nvt n; size_t i = 0; for (; i < e.rx.size() && n.data.empty(); ++i) n.feed(e.rx.substr(i, 1));
        if (n.cmds.find(string{WILL, '\x01'}) == string::npos) return "no telnet negotiation before the session's text: " + show(e.rx);
    }
    string t = plain(e.rx); if (t.compare(0, greet(acts).size(), greet(acts))) return "greeted with " + show(t);
    if (cnt(t, "<GE>") != !!(acts & 1) || cnt(t, "<SE>") != !!(acts & 2)) return "enter actions more than once: " + show(t);
    if (!ended) { if (cnt(t, "<SX>") || cnt(t, "<GX>")) return "exit actions without exit: " + show(t); if (e.eof || e.rst) return "connection closed without exit"; return ""; }
    string x = string(acts & 4 ? "<SX>" : "") + (acts & 8 ? "<GX>" : "");
    if (cnt(t, "<SX>") != !!(acts & 4) || cnt(t, "<GX>") != !!(acts & 8)) return "exit actions not run exactly once: " + show(t);
    if (t.size() < x.size() || t.compare(t.size() - x.size(), x.size(), x)) return "exit actions are not the last output: " + show(t);
    if (!e.eof) return "the connection is not closed after exit";
    return "";
}
static void hooks(Ctx& c)
{
    static const vector<Act> L = {{"hi", string("hi\r\0", 4)}, {"exit", string("exit\r\0", 6)}, {"EOT", "\x04"}, {"exit twice", string("exit\r\0exit\r\0", 12)}, {"s", string("s\r\0", 3)}, {"EOT exit", string("\x04" "exit\r\0", 7)}, {"exit LF", "exit\r\n"}, {"'ex' then 255", "ex\xff\xff"}, {"blank", string("\r\0", 2)}};
    unsigned acts = c.choose(16, "actions set"); TRig r(c, acts); End& o = r.connect(); End& a = r.connect(); r.run(); string tr = "[actions " + to_string(acts) + "] "; bool ended = false; string e;
    for (int i = 0; i < c.bound() && !ended && e.empty(); ++i) { unsigned k = c.choose(L.size(), "input"); bool split = c.choose(2, "byte by byte"); tr += L[k].name + string(split ? " (split) " : " "); if (split) for (char ch : L[k].bytes) { a.put(string(1, ch)); r.run(); } else a.put(L[k].bytes); r.run(); c.step(); if (k && k != 4 && k != 8) ended = true; e = judge28(a, acts, ended); }
    if (e.empty() && ended && !a.sess.expired()) e = "the session is not released after exit";
    if (e.empty()) { e = judge28(o, acts, false); if (e.empty()) e = works(r, o, "another client"); }
    if (e.empty()) { End& n = r.connect(); r.run(); e = judge28(n, acts, false); if (e.empty()) e = works(r, n, "a later client"); }
    if (e.empty() && !ended) { a.close_(); r.run(); if (!a.sess.expired()) e = "the session is not released after the client left"; }
    if (!e.empty()) c.fail(tr + ": " + e); c.state(hs(a.rx)); c.note(tr);
}
static Reg g1({"C28", "hooks", "every set of global/server enter/exit actions x every sequence of up to the bound inputs out of {hi, exit, EOT, exit twice, s, EOT+exit, exit ended by CR LF, 255 in a line, blank}, whole or byte by byte: transcript of that client, of another one and of a later one", {1, 2}, {3}, hooks});
static Reg g1b({"C17", "telnet", "telnet sessions: every set of actions x every sequence of up to the bound inputs (see C28)", {1, 2}, {3}, hooks});

static Reg g6({"C12", "telnet-size", "the history of a telnet session of a server built on a port or an address with size 0, 1, 2, 3, 5, 17 or the default (100), after fewer, as many and more commands than that, recalled with k Up keys and entered again: the command that runs, against the reference list", {0}, {0}, [](Ctx& c) {
    static const int Z[] = {0, 1, 2, 3, 5, 17, 100}; unsigned z = c.choose(8, "size"); bool def = z == 7, addr = c.choose(2, "address"); int n = def ? 100 : Z[z], k = c.choose(4, "Up keys"), m = max(0, n - 2 + (int)c.choose(5, "commands")); k = k == 0 ? 1 : k == 1 ? max(0, n - 1) : k == 2 ? n : n + 1;
    RefHistory ref(n); vector<string> want, ran; for (int i = 0; i < m; ++i) { want.push_back("c" + to_string(i)); ref.enter(want.back()); } string line; for (int i = 0; i < k; ++i) line = ref.up(line); if (!line.empty()) want.push_back(line);
    string tr = (addr ? string("server on an address, ") : string("server on a port, ")) + (def ? string("default size") : "size " + to_string(n)) + ", " + to_string(m) + " commands, " + to_string(k) + " Up"; c.note(tr);
    reset_net(&c); auto menu = make_unique<cli::Menu>("cli"); for (int i = 0; i < m; ++i) { string nm = "c" + to_string(i); menu->Insert(nm, [&ran, nm](ostream&) { ran.push_back(nm); }); } cli::Cli cl(move(menu)); ASIOSCHED sch; unique_ptr<TELNETSRV> srv;
    if (addr) srv = def ? make_unique<TELNETSRV>(cl, sch, "127.0.0.1", 0) : make_unique<TELNETSRV>(cl, sch, "127.0.0.1", 0, n); else srv = def ? make_unique<TELNETSRV>(cl, sch, 0) : make_unique<TELNETSRV>(cl, sch, 0, n);
    End e; int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) abort(); e.cfd = sv[0]; e.sfd = sv[1]; ends()[e.sfd] = &e;
    { auto s = srv->CreateSession(LASIO::ip::tcp::socket(sch.AsioContext(), LASIO::ip::tcp::v4(), sv[1])); s->Start(); }
    auto run = [&] { for (int i = 0; i < 100000 && sch.AsioContext().poll_one(); ++i) e.pull(); e.pull(); }; run();
    for (int i = 0; i < m; ++i) { e.put("c" + to_string(i) + string("\r\0", 2)); run(); } for (int i = 0; i < k; ++i) { e.put("\x1b[A"); run(); } e.put(string("\r\0", 2)); run(); c.step(m + k);
    if (ran != want) c.fail(tr + ": " + to_string(ran.size()) + " commands ran, the last " + (ran.empty() ? "" : ran.back()) + "; expected " + to_string(want.size()) + ", the last " + (want.empty() ? "" : want.back()));
    e.close_(); run(); srv.reset(); ends().clear(); c.state(hs(tr)); }});
// real TCP connections through the acceptor
static int tcp_connect(int family, unsigned short port)
{
    int s = syscall(SYS_socket, family, SOCK_STREAM, 0); if (s < 0) return -1; long r;
    if (family == AF_INET) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); r = syscall(SYS_connect, s, &a, sizeof a); }
    else { sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_port = htons(port); a.sin6_addr = in6addr_loopback; r = syscall(SYS_connect, s, &a, sizeof a); }
    if (r) { syscall(SYS_close, s); return -1; } return s;
}
// is a socket of this process still listening on that port? (connecting would tell as well, but another process may have been given the port meanwhile)
static bool listens(unsigned short port) { for (int f = 3; f < 1024; ++f) { int on = 0; socklen_t l = sizeof on; sockaddr_in a{}; socklen_t al = sizeof a; if (!getsockopt(f, SOL_SOCKET, SO_ACCEPTCONN, &on, &l) && on && !getsockname(f, (sockaddr*)&a, &al) && a.sin_family == AF_INET && ntohs(a.sin_port) == port) return true; } return false; }
static unsigned short listen_port() { sockaddr_storage a{}; socklen_t l = sizeof a; if (getsockname(listen_fd, (sockaddr*)&a, &l)) return 0; return ntohs(a.ss_family == AF_INET ? ((sockaddr_in&)a).sin_port : ((sockaddr_in6&)a).sin6_port); }
struct TcpRig {
    cli::Cli cl; ASIOSCHED sch; unique_ptr<TELNETSRV> srv; vector<unique_ptr<End>> e; int family = AF_INET; int hi = 0;
    static unique_ptr<cli::Menu> menu(int& hi) { auto m = make_unique<cli::Menu>("cli"); m->Insert("hi", [&hi](ostream& o) { ++hi; o << "HELLO\n"; }); return m; }
    TcpRig(Ctx& c, unsigned form, unsigned acts) : cl((reset_net(&c), menu(hi)))
    {
        if (acts & 1) cl.EnterAction([](ostream& o) { o << "<GE>"; }); if (acts & 8) cl.ExitAction([](ostream& o) { o << "<GX>"; });
        switch (form) {
            case 0: srv = make_unique<TELNETSRV>(cl, sch, 0); break;
            case 1: srv = make_unique<TELNETSRV>(cl, sch, "127.0.0.1", 0); break;
            case 2: srv = make_unique<TELNETSRV>(cl, sch, "0.0.0.0", 0, 5); break;
            case 3: srv = make_unique<TELNETSRV>(cl, sch, "::1", 0); family = AF_INET6; break;
            case 4: srv = make_unique<TELNETSRV>(cl, sch, "::", 0); family = AF_INET6; break;
        }
        if (acts & 2) srv->EnterAction([](ostream& o) { o << "<SE>"; }); if (acts & 4) srv->ExitAction([](ostream& o) { o << "<SX>"; });
    }
    End* connect() { e.push_back(make_unique<End>()); e.back()->cfd = tcp_connect(family, listen_port()); return e.back().get(); }
    void run() { for (int i = 0; i < 100000 && sch.AsioContext().poll_one(); ++i) {} for (auto& x : e) if (x->cfd >= 0) x->pull(); }
    // runs the loop until cond, or gives up
    template <class F> bool until(F f) { for (int i = 0; i < 3000; ++i) { run(); if (f()) return true; if (i > 20) usleep(1000); } return false; }
    ~TcpRig() { for (auto& x : e) x->reset_(); ends().clear(); }
};
static string serve28(TcpRig& r, End* a, unsigned acts, const char* who)
{
    if (a->cfd < 0) return string(who) + " cannot connect";
    if (!r.until([&] { return plain(a->rx).find(PROMPT) != string::npos; })) return string(who) + " is not served, received " + show(a->rx);
    string e = judge28(*a, acts, false); if (!e.empty()) return string(who) + ": " + e;
    size_t z = a->rx.size(); int h = r.hi; a->put(string("hi\r\0", 4)); r.until([&] { return plain(a->rx.substr(z)).find(PROMPT) != string::npos; });
    if (plain(a->rx.substr(z)) != "hi\nHELLO\n" + PROMPT || r.hi != h + 1) return string(who) + " typed hi and received " + show(plain(a->rx.substr(z)));
    return "";
}
static string bye28(TcpRig& r, End* a, unsigned acts, bool eot, const char* who)
{
    a->put(eot ? string("\x04") : string("exit\r\0", 6)); if (!r.until([&] { return a->eof || a->rst; })) return string(who) + ": the connection is not closed after exit";
    string e = judge28(*a, acts, true); return e.empty() ? "" : string(who) + ": " + e;
}
static Reg g2({"C28", "bind", "every constructor and bind address form (port, 127.0.0.1, 0.0.0.0, ::1, ::) x every set of actions: two clients over TCP, exit or EOT of one, the other and a third one served", {1}, {1}, [](Ctx& c) {
    unsigned form = c.choose(5, "form"), acts = c.choose(16, "actions"); bool eot = c.choose(2, "EOT"); string tr = "form " + to_string(form) + " actions " + to_string(acts); TcpRig r(c, form, acts);
    End* a = r.connect(); string e = serve28(r, a, acts, "first client"); End* b = r.connect(); if (e.empty()) e = serve28(r, b, acts, "second client"); if (e.empty()) e = bye28(r, a, acts, eot, "first client");
    if (e.empty()) { size_t z = b->rx.size(); r.run(); if (b->rx.size() != z || b->eof) e = "the other connection is affected by the exit"; }
    if (e.empty()) { End* d = r.connect(); e = serve28(r, d, acts, "third client"); if (e.empty()) e = bye28(r, b, acts, !eot, "second client"); if (e.empty()) e = bye28(r, d, acts, eot, "third client"); }
    if (!e.empty()) c.fail(tr + ": " + e); c.step(3); c.state(hs(tr) + eot); c.note(tr); }});
static Reg g3({"C28", "accept-faults", "up to 3 clients that connect, or connect and disappear before being accepted, or disappear after the greeting, with up to the bound accept() calls failing (EMFILE, ENFILE, ENOBUFS, EINTR, EAGAIN, ECONNABORTED, EPROTO, EPERM) at every point: the next client is served", {1, 2}, {3}, [](Ctx& c) {
    TcpRig r(c, 1, 3); inj_accept = true; budget = c.bound(); string tr, e; vector<End*> live;
    for (int i = 0; i < 2; ++i) { unsigned k = c.choose(4, "client"); End* a = r.connect(); if (a->cfd < 0) { e = "cannot connect"; break; } switch (k) { case 0: tr += "connect; "; r.run(); live.push_back(a); break; case 1: tr += "connect+reset; "; a->reset_(); r.run(); break; case 2: tr += "connect, run, reset; "; r.run(); a->reset_(); break; case 3: tr += "connect (loop busy); "; live.push_back(a); break; } c.step(); }
    r.run(); inj_accept = false; End* z = r.connect(); if (e.empty()) e = serve28(r, z, 3, "the next client"); if (e.empty()) e = bye28(r, z, 3, true, "the next client");
    if (!e.empty()) c.fail(tr + ": " + e); c.state(hs(tr, budget)); c.note(tr); }});
static Reg g4({"C28", "many", "every sequence of up to the bound events (a client connects, client i exits, client i leaves, client i types hi) with up to 3 clients at a time, over TCP: every client has its own session and transcript", {4}, {5}, [](Ctx& c) {
    TcpRig r(c, 0, 15); string tr, e; vector<End*> a(3, nullptr);
    for (int i = 0; i < c.bound() && e.empty(); ++i) {
        unsigned k = c.choose(3, "client"); for (unsigned j = 0; j < k; ++j) if (!a[j]) { c.prune(); return; } c.step();
        if (!a[k]) { a[k] = r.connect(); tr += "connect " + to_string(k) + "; "; e = serve28(r, a[k], 15, "a client"); }
        else switch (c.choose(3, "what")) { case 0: tr += "hi " + to_string(k) + "; "; e = serve28(r, a[k], 15, "a client"); break; case 1: tr += "exit " + to_string(k) + "; "; e = bye28(r, a[k], 15, true, "a client"); a[k] = nullptr; break; case 2: tr += "leave " + to_string(k) + "; "; a[k]->reset_(); r.run(); a[k] = nullptr; break; }
        for (auto x : a) if (x && e.empty()) e = judge28(*x, 15, false);
    }
    if (!e.empty()) c.fail(tr + ": " + e); c.state(hs(tr)); c.note(tr); }});

static Reg g5({"C28", "crowd", "10 to 100 clients over TCP at once, or one after the other, all connecting before the loop turns or one by one: each is greeted and served and, in order, in reverse or half of them, exits with its own exit actions while the others go on; then a further one is served", {0}, {0, 1}, [](Ctx& c) {
    static const int N[] = {10, 17, 33, 65, 100}; int n = N[c.choose(c.bound() ? 5 : 3, "clients")]; bool burst = c.choose(2, "at once"); unsigned ord = c.choose(3, "order"); string tr = to_string(n) + (burst ? " clients at once" : " clients") + ", order " + to_string(ord), e; c.note(tr); TcpRig r(c, c.choose(2, "form"), 15); vector<End*> a;
    for (int i = 0; i < n && e.empty(); ++i) { a.push_back(r.connect()); c.step(); if (!burst) e = serve28(r, a[i], 15, "a client"); else if (i % 16 == 15) r.run(); }
    if (burst) for (int i = 0; i < n && e.empty(); ++i) e = serve28(r, a[i], 15, "a client");
    for (int i = 0; i < n && e.empty(); ++i) { int x = ord == 0 ? i : ord == 1 ? n - 1 - i : i * 2; if (x >= n) break; e = bye28(r, a[x], 15, i % 2, "a leaving client"); if (e.empty() && ord < 2 && i + 1 < n) { int y = ord == 0 ? n - 1 : 0; e = judge28(*a[y], 15, false); } }
    if (e.empty() && ord == 2) for (int i = 1; i < n && e.empty(); i += 2) e = serve28(r, a[i], 15, "a remaining client");
    if (e.empty()) { End* z = r.connect(); e = serve28(r, z, 15, "a later client"); if (e.empty()) e = bye28(r, z, 15, false, "a later client"); }
    if (!e.empty()) c.fail(tr + ": " + e); c.state(hs(tr)); }, 120});

static Reg g7({"C28", "two-servers", "two servers on one scheduler, of one Cli or of one each, with every set of server actions each and different history sizes; every sequence of up to the bound events (a client of either connects, types hi, exits, presses EOT, leaves; the actions of a server are replaced or removed for the clients to come): every client is greeted, answered and seen off as the hooks of its own server and Cli say, then one more client of each", {3, 4}, {5}, [](Ctx& c) {
    reset_net(&c); bool same = c.choose(2, "same Cli"); string tr = same ? "one Cli; " : "two Clis; "; int hi[2] = {0, 0}; unique_ptr<cli::Cli> cl[2];
    for (int k = 0; k < (same ? 1 : 2); ++k) { string n = to_string(k); auto m = make_unique<cli::Menu>("cli"); m->Insert("hi", [&hi, k](ostream& o) { ++hi[k]; o << "HELLO" << k << "\n"; }); cl[k] = make_unique<cli::Cli>(move(m)); cl[k]->EnterAction([n](ostream& o) { o << "<GE" << n << ">"; }); cl[k]->ExitAction([n](ostream& o) { o << "<GX" << n << ">"; }); }
    ASIOSCHED sch; unique_ptr<TELNETSRV> srv[2]; string en[2], ex[2];
    auto enter = [&](int k, const string& t) { en[k] = t; if (t.empty()) srv[k]->EnterAction({}); else srv[k]->EnterAction([t](ostream& o) { o << t; }); }; auto exit_ = [&](int k, const string& t) { ex[k] = t; if (t.empty()) srv[k]->ExitAction({}); else srv[k]->ExitAction([t](ostream& o) { o << t; }); };
    for (int k = 0; k < 2; ++k) { srv[k] = make_unique<TELNETSRV>(*cl[same ? 0 : k], sch, "127.0.0.1", 0, k ? 3 : 100); unsigned a = c.choose(4, "server actions"); tr += "actions " + to_string(a) + "; "; if (a & 1) enter(k, "<SE" + to_string(k) + ">"); if (a & 2) exit_(k, "<SX" + to_string(k) + ">"); }
    struct Cl { unique_ptr<End> e; int k; string want, bye; bool open = true; }; vector<Cl> v; auto run = [&] { for (int i = 0; i < 100000 && sch.AsioContext().poll_one(); ++i) {} for (auto& x : v) x.e->pull(); };
    auto open = [&](int k) { int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) abort(); Cl x; x.e = make_unique<End>(); x.e->cfd = sv[0]; x.e->sfd = sv[1]; ends()[sv[1]] = x.e.get(); x.k = k; auto s = srv[k]->CreateSession(LASIO::ip::tcp::socket(sch.AsioContext(), LASIO::ip::tcp::v4(), sv[1])); x.e->sess = s; s->Start(); string g = to_string(same ? 0 : k); x.want = "<GE" + g + ">" + en[k] + PROMPT; x.bye = ex[k] + "<GX" + g + ">"; v.push_back(move(x)); };
    auto check = [&] { run(); for (auto& x : v) { string g = plain(x.e->rx); if (g != x.want) { c.fail(tr + "a client of server " + to_string(x.k) + " received " + show(g) + ", expected " + show(x.want)); return false; } if (!x.open && (!x.e->sess.expired() || !x.e->eof)) { c.fail(tr + "the session of a client that is gone is not ended"); return false; } if (x.open && x.e->eof) { c.fail(tr + "a client is disconnected"); return false; } } return true; };
    bool ok = true;
    for (int i = 0; i < c.bound() && ok; ++i) {
        unsigned n = 0; for (auto& x : v) n += x.open; unsigned op = c.choose(2 + 4 + 4 * n, "event"); c.step();
        if (op < 2) { open(op); tr += "client " + to_string(v.size() - 1) + " of " + to_string(op) + "; "; }
        else if (op < 6) { int k = op % 2; string t = op < 4 ? "" : "2"; tr += "actions of " + to_string(k) + (op < 4 ? " removed; " : " replaced; "); enter(k, t.empty() ? "" : "<SE2" + to_string(k) + ">"); exit_(k, t.empty() ? "" : "<SX2" + to_string(k) + ">"); for (auto& x : v) if (x.open && x.k == k) { c.prune(); ok = false; } }
        else {
            unsigned j = (op - 6) / 4; Cl* x = nullptr; for (auto& y : v) if (y.open && j-- == 0) { x = &y; break; } tr += "client " + to_string(x - v.data()); int k = same ? 0 : x->k;
            switch ((op - 6) % 4) { case 0: tr += " hi; "; x->e->put(string("hi\r\0", 4)); x->want += "hi\nHELLO" + to_string(k) + "\n" + PROMPT; break; case 1: tr += " exit; "; x->e->put(string("exit\r\0", 6)); x->want += "exit\n" + x->bye; x->open = false; break; case 2: tr += " EOT; "; x->e->put("\x04"); x->want += x->bye; x->open = false; break; case 3: { tr += " leaves; "; run(); x->e->close_(); run(); if (!x->e->sess.expired()) { c.fail(tr + "the session is not released"); ok = false; } ends().erase(x->e->sfd); size_t at = x - v.data(); v.erase(v.begin() + at); break; } }
        }
        if (ok) ok = check();
        for (auto& x : v) c.state(hs(x.want, n));
    }
    if (ok) for (int k = 0; k < 2 && ok; ++k) { open(k); tr += "one more of " + to_string(k) + "; "; ok = check(); if (ok) { v.back().e->put("\x04"); v.back().want += v.back().bye; v.back().open = false; ok = check(); } }
    for (auto& x : v) x.e->close_(); run(); srv[0].reset(); srv[1].reset(); ends().clear(); c.note(tr); }});

// ---------------------------------------------------------------- C31 (telnet)
// input of a client: lines of its own, of a total size around the receive buffer
static string burst_input(int who, size_t size)
{
    string r; for (int i = 0; r.size() + 32 < size; ++i) r += (who ? string("no") + char('a' + i % 26) + to_string(i) : string("hi")) + string("\r\0", 2);
    if (size > r.size() + 4) r += string(size - r.size() - 4, who ? 'y' : 'x') + string("\r\0", 2); r += string(who ? "s\r\0" : "b\r\0", 3); return r;
}
static Reg b1({"C31", "telnet-bursts", "two telnet clients whose inputs of 6, 1023, 1024, 1025, 1100 or 2100 bytes arrive before the loop turns or after every number of handlers up to the bound, one half of the input or the whole at a time: each receives what it would receive alone", {6}, {40}, [](Ctx& c) {
    static const size_t Z[] = {6, 1023, 1024, 1025, 1100, 2100}; string in[2]; string tr; for (int i = 0; i < 2; ++i) { size_t z = Z[c.choose(6, "size")]; in[i] = burst_input(i, z); tr += to_string(in[i].size()) + " "; }
    unsigned steps = c.choose(c.bound() + 1, "handlers between"); unsigned half = c.choose(3, "halves"); tr += "bytes, " + to_string(steps) + " handlers between, halves " + to_string(half); string got[2];
    { TRig r(c, 0); End* e[2] = {&r.connect(), &r.connect()}; r.run();
      for (int i = 0; i < 2; ++i) { e[i]->put(half ? in[i].substr(0, half == 1 ? in[i].size() / 2 : min<size_t>(in[i].size(), 1024)) : in[i]); for (unsigned k = 0; k < steps; ++k) r.one(); }
      if (half) for (int i = 0; i < 2; ++i) { e[i]->put(in[i].substr(half == 1 ? in[i].size() / 2 : min<size_t>(in[i].size(), 1024))); for (unsigned k = 0; k < steps; ++k) r.one(); }
      r.run(); for (int i = 0; i < 2; ++i) got[i] = e[i]->rx; c.step(steps); }
    static map<string, string> alone;
    for (int i = 0; i < 2; ++i) { auto& w = alone[in[i]]; if (w.empty()) { TRig r(c, 0); End& e = r.connect(); r.run(); e.put(in[i]); r.run(); w = e.rx; }
        if (got[i] != w) { size_t p = 0; while (p < w.size() && p < got[i].size() && w[p] == got[i][p]) ++p; c.fail(tr + ": client " + to_string(i) + " received " + show(got[i].substr(p, 80)) + " where, alone, it receives " + show(w.substr(p, 80))); } }
    c.note(tr); c.state(hs(got[0] + got[1])); }});

// ---------------------------------------------------------------- C30
static Reg d1({"C30", "server", "a telnet server destroyed by its owner after every number of handlers, with a client in the middle of a line or a command queued, a client connecting, and one that left; then the scheduler runs on: nothing happens for the server, the sessions it created go on working", {1}, {1}, [](Ctx& c) {
    static const string S[] = {"hi", string("hi\r\0", 4), string("hi\r\0hi\r\0", 8), string("exit\r\0hi\r\0", 10), "\x04"}; TRig r(c, 15); unsigned short port = listen_port(); End& a = r.connect(); string in = S[c.choose(5, "input")]; unsigned conn = c.choose(3, "pending connections"); unsigned steps = c.choose(26, "handlers"); bool leave_ = c.choose(2, "leaves");
    vector<unique_ptr<End>> t; for (unsigned i = 0; i < conn; ++i) { t.push_back(make_unique<End>()); t[i]->cfd = tcp_connect(AF_INET, port); } a.put(in); for (unsigned i = 0; i < steps; ++i) if (!r.one()) break; if (leave_) a.reset_();
    string tr = show(in) + ", " + to_string(conn) + " pending connections, " + to_string(steps) + " handlers" + (leave_ ? ", client leaves" : ""); c.note(tr); r.srv.reset(); c.step();
    r.run(); if (!leave_ && in == "hi") { a.put(string("\r\0", 2)); r.run(); string e = works(r, a, "the session"); if (!e.empty()) c.fail(tr + ": " + e); }
    for (auto& x : t) x->reset_(); r.run(); if (listens(port)) c.fail(tr + ": the destroyed server still accepts"); c.state(hs(tr)); }});
static Reg d2({"C30", "server-then-all", "server, scheduler and Cli destroyed in that order with events pending after every number of handlers", {1}, {1}, [](Ctx& c) {
    static const string S[] = {"hi", string("hi\r\0", 4), string("exit\r\0hi\r\0", 10), "\x04", string("\xff\xfd\x06", 3)}; TRig r(c, 15); End& a = r.connect(); End& b = r.connect(); a.put(S[c.choose(5, "input")]); b.put(S[c.choose(5, "input")]); unsigned steps = c.choose(16, "handlers"); for (unsigned i = 0; i < steps; ++i) r.one();
    bool first = c.choose(2, "the server goes first"); if (first) { r.srv.reset(); r.one(); } c.note(to_string(steps)); c.step(); c.state(steps); }});
static Reg d3({"C30", "telnet-session", "a telnet session whose client leaves or exits after every number of handlers with keys still queued on the scheduler: the queued keys have no effect once it is gone", {1}, {1}, [](Ctx& c) {
    static const string S[] = {string("exit\r\0hi\r\0hi\r\0", 14), string("\x04hi\r\0", 5), string("hi\r\0\x04hi\r\0", 9)}; TRig r(c, 15); End& v = r.connect(); v.victim = true; End& a = r.connect(); unsigned k = c.choose(3, "input"); a.put(S[k]); unsigned steps = c.choose(26, "handlers"); unsigned how = c.choose(3, "then"); for (unsigned i = 0; i < steps; ++i) if (!r.one()) break;
    int before = r.hi; if (how) leave(a, how); r.run(); string tr = show(S[k]) + ", " + to_string(steps) + " handlers"; c.note(tr); c.step(); (void)before; if (!how && (!a.eof || !a.sess.expired())) c.fail(tr + ": session not ended"); string e = works(r, v, "another session"); if (!e.empty()) c.fail(tr + ": " + e); c.state(hs(a.rx, steps)); }});
}
