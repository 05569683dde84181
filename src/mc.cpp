#include "mc.h"
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <algorithm>
#include <exception>

extern "C" const char* __asan_default_options();
extern "C" __attribute__((weak, no_sanitize("address"))) const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12:symbolize=1";
}
extern "C" __attribute__((weak)) const char* __ubsan_default_options() { return "print_stacktrace=1"; }

namespace mc {

std::function<void()> worker_init;

static std::vector<Model>& models() { static std::vector<Model> m; return m; }
Reg::Reg(Model m) { models().push_back(std::move(m)); }
static std::vector<std::pair<std::string, std::string>>& assumes() { static std::vector<std::pair<std::string, std::string>> a; return a; }
Assume::Assume(const char* p, const char* t) { assumes().push_back({p, t}); }

std::string show(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r";
        else if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static constexpr unsigned MAXD = 1500;     // choice points per execution
static constexpr unsigned QCAP = 2048;
static constexpr unsigned MAXW = 16;
static constexpr size_t HBITS = 22;

struct Lv { uint16_t n, c; };
struct Task { unsigned len; Lv lv[MAXD]; };
struct Slot {
    std::atomic<uint64_t> start_ms;      // start of the running execution (0 = none)
    std::atomic<unsigned> len;
    Lv lv[MAXD];
    std::atomic<int> status;             // 0 running, 1 finished, 2 failure recorded, 3 internal error
    char msg[4096];
    std::atomic<uint64_t> execs, pruned, steps, states, outcomes, points, maxlen, hashfull;
};
struct Sample { std::atomic<int> used; unsigned len; Lv lv[MAXD]; };
struct Shared {
    std::atomic_flag lock;
    std::atomic<unsigned> qn, idle;
    std::atomic<int> stop;               // 1 = stop (failure/timeout)
    unsigned nworkers;
    Task q[QCAP];
    Slot slot[MAXW];
    Sample samples[4];
    std::atomic<uint64_t> hs[size_t(1) << HBITS];
    std::atomic<uint64_t> ho[size_t(1) << HBITS];
};
static Shared* S;

static void lock() { while (S->lock.test_and_set(std::memory_order_acquire)) { timespec t{0, 20000}; nanosleep(&t, nullptr); } }
static void unlock() { S->lock.clear(std::memory_order_release); }

static bool insert(std::atomic<uint64_t>* t, uint64_t h, std::atomic<uint64_t>& full)
{
    if (!h) h = 1;
    size_t mask = (size_t(1) << HBITS) - 1, i = h & mask;
    for (int k = 0; k < 256; ++k, i = (i + 1) & mask) {
        uint64_t v = t[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (!v) { uint64_t e = 0; if (t[i].compare_exchange_strong(e, h)) return true; if (e == h) return false; }
    }
    ++full;
    return false;
}

struct Internal { std::string msg; };

class CtxImpl : public Ctx {
public:
    Slot* slot = nullptr;
    std::vector<Lv> prefix;      // to replay
    std::vector<Lv> trace;
    bool notes = false, isfail = false, pr = false;
    std::string fmsg;
    std::string* sink = nullptr;
    int bnd = 0;
    unsigned choose(unsigned n, const char* what) override
    {
        if (n <= 1) return 0;
        if (trace.size() >= MAXD) { internal("too many choice points"); }
        Lv l{static_cast<uint16_t>(n), 0};
        if (trace.size() < prefix.size()) {
            l.c = prefix[trace.size()].c;
            if (prefix[trace.size()].n != n || l.c >= n) {
                internal("divergence while replaying: choice " + std::to_string(trace.size()) + " (" + what + ") has " + std::to_string(n) + " alternatives, recorded " + std::to_string(prefix[trace.size()].n));
            }
        }
        trace.push_back(l);
        if (slot) { slot->lv[trace.size() - 1] = l; slot->len.store(trace.size(), std::memory_order_release); }
        return l.c;
    }
    [[noreturn]] void internal(const std::string& m) override
    {
        if (slot) { snprintf(slot->msg, sizeof slot->msg, "%s", m.c_str()); slot->status = 3; _exit(3); }
        fprintf(stderr, "mc: internal error: %s\n", m.c_str());
        fflush(stderr);
        _exit(3);
    }
    void fail(const std::string& m) override { if (!isfail) { isfail = true; fmsg = m; if (notes) notes_raw("FAIL: " + m); } }
    bool failed() const override { return isfail; }
    void state(uint64_t h) override { if (slot && insert(S->hs, h, slot->hashfull)) ++slot->states; }
    void step(uint64_t n) override { if (slot) slot->steps.store(slot->steps.load(std::memory_order_relaxed) + n, std::memory_order_relaxed); }
    void outcome(uint64_t h) override { if (slot && insert(S->ho, h, slot->hashfull)) ++slot->outcomes; }
    void prune() override { pr = true; }
    void notes_raw(const std::string& s) override { if (sink) { *sink += s; *sink += '\n'; } else { fprintf(stdout, "  %s\n", s.c_str()); fflush(stdout); } }
    bool noting() const override { return notes; }
    int bound() const override { return bnd; }
};

static void run_body(const Model& m, CtxImpl& c)
{
    try { m.body(c); }
    catch (const std::exception& e) { c.fail(std::string("unexpected exception out of the code under test: ") + e.what()); }
    catch (...) { c.fail("unexpected exception out of the code under test"); }
}

static void worker(const Model& m, int bnd, unsigned id)
{
    Slot& sl = S->slot[id];
    if (worker_init) worker_init();
    std::vector<Lv> prefix;
    bool isidle = false;
    for (;;) {
        // get a task
        bool got = false;
        lock();
        if (S->qn) {
            Task& t = S->q[--S->qn];
            prefix.assign(t.lv, t.lv + t.len);
            got = true;
            if (isidle) { --S->idle; isidle = false; }
        } else if (!isidle) { ++S->idle; isidle = true; }
        bool done = !got && S->idle == S->nworkers;
        unlock();
        if (done || S->stop) break;
        if (!got) { timespec t{0, 100000}; nanosleep(&t, nullptr); continue; }
        size_t base = prefix.size();
        std::vector<Lv> cur = prefix;               // choices to replay
        std::vector<uint16_t> lim(base, 0);         // per level, alternatives < lim are ours
        for (;;) {
            if (S->stop) break;
            CtxImpl c; c.slot = &sl; c.prefix = cur; c.bnd = bnd;
            sl.len = 0;
            sl.start_ms = static_cast<uint64_t>(now() * 1000);
            run_body(m, c);
            sl.start_ms = 0;
            if (c.trace.size() < cur.size()) c.internal("divergence: execution ended before the recorded prefix");
            if (c.isfail) {
                snprintf(sl.msg, sizeof sl.msg, "%s", c.fmsg.c_str());
                sl.status = 2; S->stop = 1; _exit(0);
            }
            if (c.pr) ++sl.pruned; else {
                uint64_t e = ++sl.execs;
                int want = -1;
                if (e == 1) want = 0; else if (e == 50) want = 1; else if (e == 2000) want = 2; else if (e == 20000) want = 3;
                if (want >= 0) { int z = 0; if (S->samples[want].used.compare_exchange_strong(z, 1)) {
                    S->samples[want].len = c.trace.size(); std::copy(c.trace.begin(), c.trace.end(), S->samples[want].lv); S->samples[want].used = 2; } }
            }
            sl.points += c.trace.size() - cur.size();
            if (c.trace.size() > sl.maxlen) sl.maxlen = c.trace.size();
            // next
            cur = c.trace;
            for (size_t i = lim.size(); i < cur.size(); ++i) lim.push_back(cur[i].n);
            while (cur.size() > base && cur.back().c + 1 >= lim[cur.size() - 1]) { cur.pop_back(); }
            lim.resize(cur.size());
            if (cur.size() <= base) break;
            ++cur.back().c;
            // share work
            if (S->idle && S->qn < S->nworkers) {
                lock();
                for (size_t i = base; i < cur.size() && S->qn < S->nworkers * 4; ++i) {
                    while (lim[i] > cur[i].c + 1 && S->qn < QCAP - 1) {
                        Task& t = S->q[S->qn];
                        t.len = i + 1; std::copy(cur.begin(), cur.begin() + i + 1, t.lv);
                        t.lv[i].c = --lim[i];
                        ++S->qn;
                        if (S->qn >= S->nworkers * 4) break;
                    }
                }
                unlock();
            }
        }
    }
    sl.status = 1;
    _exit(0);
}

static std::string errfile(unsigned id) { return "/tmp/mc_err." + std::to_string(getppid()) + "." + std::to_string(id); }

struct Found { bool found = false, internal = false; std::string msg; std::vector<Lv> trace; };

struct Stats { uint64_t execs = 0, pruned = 0, steps = 0, states = 0, outcomes = 0, points = 0, maxlen = 0, hashfull = 0; double wall = 0; bool complete = true; };

static std::string slurp(const std::string& f, size_t max = 20000)
{
    std::ifstream i(f, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    if (s.size() > max) s.resize(max);
    return s;
}

// Runs one execution in a fresh process. 0 ok, 2 fail, 4 crash, 5 hang, 3 internal
static int run_one(const Model& m, int bnd, const std::vector<Lv>& tr, double limit, std::string& msg, std::string& notes)
{
    int pp[2]; if (pipe(pp)) return 3;
    std::string ef = "/tmp/mc_one." + std::to_string(getpid());
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (!p) {
        setpgid(0, 0);
        close(pp[0]);
        int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(pp[1], 50); 
        if (fd != 2 && fd != 50) close(fd);
        if (pp[1] != 50) close(pp[1]);
        if (worker_init) worker_init();
        CtxImpl c; c.prefix = tr; c.notes = true; c.bnd = bnd;
        struct W : CtxImpl {};
        std::string sink;
        struct NoteCtx : CtxImpl { void notes_raw(const std::string& s) override { std::string l = "N" + s + "\n"; for (size_t i = 1; i + 1 < l.size(); ++i) if (l[i] == '\n') l[i] = ' '; (void)!::write(50, l.data(), l.size()); } } nc;
        nc.prefix = tr; nc.notes = true; nc.bnd = bnd;
        run_body(m, nc);
        if (nc.trace.size() < tr.size()) nc.internal("divergence: execution ended before the recorded prefix");
        if (nc.isfail) { std::string l = "F" + nc.fmsg; for (auto& ch : l) if (ch == '\n') ch = ' '; l += "\n"; (void)!::write(50, l.data(), l.size()); _exit(2); }
        _exit(0);
    }
    close(pp[1]);
    fcntl(pp[0], F_SETFL, O_NONBLOCK);
    std::string data; double t0 = now(); int st = 0, res = -1;
    for (;;) {
        char b[4096]; ssize_t r; while ((r = read(pp[0], b, sizeof b)) > 0) if (data.size() < 400000) data.append(b, r);
        if (waitpid(p, &st, WNOHANG) == p) { while ((r = read(pp[0], b, sizeof b)) > 0) if (data.size() < 400000) data.append(b, r); break; }
        if (now() - t0 > limit) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); res = 5; break; }
        timespec t{0, 1000000}; nanosleep(&t, nullptr);
    }
    close(pp[0]);
    std::istringstream is(data); std::string l;
    while (std::getline(is, l)) { if (l[0] == 'N') notes += "  " + l.substr(1) + "\n"; else if (l[0] == 'F') msg = l.substr(1); }
    std::string err = slurp(ef); unlink(ef.c_str());
    if (res == 5) { msg = "hang: the execution did not finish within " + std::to_string((int)limit) + " s"; return 5; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 2 && !msg.empty()) return 2;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { msg = err; return 3; }
    // crash
    std::string first;
    std::istringstream es(err);
    while (std::getline(es, l)) if (l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("ssertion") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("what():") != std::string::npos) { first += (first.empty() ? "" : " / ") + l; if (first.size() > 600) break; }
    msg = "crash (" + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st))) + ") " + first;
    notes += "  --- stderr of the crashing execution ---\n";
    std::istringstream e2(err); int k = 0; while (std::getline(e2, l) && k++ < 60) notes += "  " + l + "\n";
    return 4;
}

static Found explore(const Model& m, int bnd, unsigned nw, double cap, Stats& out)
{
    size_t sz = sizeof(Shared);
    S = static_cast<Shared*>(mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (S == MAP_FAILED) { perror("mmap"); exit(2); }
    S->nworkers = nw; S->qn = 1; S->q[0].len = 0;
    double t0 = now();
    std::vector<pid_t> pid(nw);
    fflush(stdout); fflush(stderr);
    for (unsigned i = 0; i < nw; ++i) {
        pid_t p = fork();
        if (!p) {
            setpgid(0, 0);
            int fd = open(errfile(i).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2); if (fd != 2) close(fd);
            int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (nul != 1) close(nul);
            worker(m, bnd, i);
        }
        pid[i] = p;
    }
    Found f; unsigned alive = nw;
    auto grab = [&](unsigned i) { Slot& s = S->slot[i]; unsigned n = std::min<unsigned>(s.len, MAXD); f.trace.assign(s.lv, s.lv + n); };
    bool capped = false;
    while (alive) {
        for (unsigned i = 0; i < nw; ++i) {
            if (!pid[i]) continue;
            int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
            if (r == pid[i]) {
                pid_t pgid = pid[i];
                pid[i] = 0; --alive;
                kill(-pgid, SIGKILL);
                Slot& s = S->slot[i];
                if (s.status == 3) { if (!f.internal) { f.internal = true; f.msg = s.msg; grab(i); } S->stop = 1; }
                else if (s.status == 2) { if (!f.found || f.trace.size() > s.len) { f.found = true; f.msg = s.msg; grab(i); } S->stop = 1; }
                else if (s.status != 1 || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                    if (!f.found) { f.found = true; f.msg = "crash"; grab(i); }
                    S->stop = 1;
                }
            } else {
                uint64_t b = S->slot[i].start_ms;
                if (b && now() * 1000 - b > m.hang_s * 1000) {
                    kill(-pid[i], SIGKILL); kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); pid[i] = 0; --alive;
                    if (!f.found) { f.found = true; f.msg = "hang"; grab(i); }
                    S->stop = 1;
                }
            }
        }
        if (!capped && now() - t0 > cap) { capped = true; S->stop = 1; }
        if (alive) { timespec t{0, 500000}; nanosleep(&t, nullptr); }
    }
    for (unsigned i = 0; i < nw; ++i) {
        Slot& s = S->slot[i];
        out.execs += s.execs; out.pruned += s.pruned; out.steps += s.steps; out.states += s.states; out.outcomes += s.outcomes; out.points += s.points; out.hashfull += s.hashfull;
        out.maxlen = std::max<uint64_t>(out.maxlen, s.maxlen);
        unlink(("/tmp/mc_err." + std::to_string(getpid()) + "." + std::to_string(i)).c_str());
    }
    out.wall = now() - t0;
    out.complete = !capped && !f.found && !f.internal;
    return f;
}

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}

static std::string choices(const std::vector<Lv>& t) { std::string r; for (auto& l : t) r += std::to_string(l.c) + "/" + std::to_string(l.n) + " "; return r; }

int run(int argc, char** argv)
{
    std::string prop, tier = "quick", replay, only, evid = "evidence", reps = "replays", known;
    unsigned nw = 8; double cap = 0; int forceb = -1; bool first = false;
    if (const char* t = getenv("VERIF_TIER")) if (*t) tier = t;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") prop = val(); else if (a == "--tier") tier = val(); else if (a == "--replay") replay = val();
        else if (a == "--model") only = val(); else if (a == "--first") first = true; else if (a == "--workers") nw = std::stoi(val()); else if (a == "--cap") cap = std::stod(val());
        else if (a == "--evidence") evid = val(); else if (a == "--replays") reps = val(); else if (a == "--known") known = val(); else if (a == "--bound") forceb = std::stoi(val());
        else if (a == "--list") { for (auto& m : models()) { printf("%s\t%s\t%s\t", m.property, m.name, m.what); for (int b : m.quick) printf("%d ", b); printf("\t"); for (int b : m.thorough) printf("%d ", b); printf("\n"); } return 0; }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    nw = std::min(nw, MAXW);
    if (tier != "thorough") tier = "quick";
    int seed = 1; if (const char* s = getenv("VERIF_SEED")) seed = atoi(s);

    if (!replay.empty()) {
        std::ifstream in(replay); std::string l, model; int b = 0; std::vector<Lv> tr;
        while (std::getline(in, l)) {
            if (l.rfind("property: ", 0) == 0) prop = l.substr(10);
            else if (l.rfind("model: ", 0) == 0) model = l.substr(7);
            else if (l.rfind("bound: ", 0) == 0) b = atoi(l.c_str() + 7);
            else if (l.rfind("choices: ", 0) == 0) { std::istringstream is(l.substr(9)); unsigned c, n; char s; while (is >> c >> s >> n) tr.push_back({(uint16_t)n, (uint16_t)c}); }
        }
        for (auto& m : models()) if (prop == m.property && model == m.name) {
            std::string msg, notes;
            int r = run_one(m, b, tr, m.hang_s * 3, msg, notes);
            printf("%s", notes.c_str());
            if (r == 0) { printf("replay: the property held\n"); return 0; }
            printf("replay: %s\n", msg.c_str());
            return r == 3 ? 2 : 1;
        }
        fprintf(stderr, "no such model\n"); return 2;
    }

    double T0 = now();
    // known findings: "finding: property=ID | model=NAME | part of the message | description"
    struct KF { std::string model, part, desc; };
    std::vector<KF> kf;
    if (!known.empty()) {
        std::ifstream in(known); std::string l;
        while (std::getline(in, l)) {
            if (l.rfind("finding: property=" + prop + " | model=", 0) != 0) continue;
            std::vector<std::string> f; size_t i = 0;
            for (;;) { size_t j = l.find(" | ", i); f.push_back(l.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) break; i = j + 3; }
            if (f.size() == 4) kf.push_back({f[1].substr(6), f[2], f[3]});
        }
    }
    mkdir(evid.c_str(), 0777);
    auto budget = [&] { return tier == "thorough" ? 3600.0 : std::min(200.0, std::max(5.0, 560 - (now() - T0))); };

    std::string mj, samples; Stats tot; bool all = true; int nm = 0;
    for (auto& m : models()) {
        if (prop != m.property) continue;
        if (!only.empty() && only != m.name) continue;
        ++nm;
        auto bs = tier == "thorough" ? m.thorough : m.quick;
        if (forceb >= 0) bs = {forceb}; else if (first) bs.resize(1);
        for (size_t bi = 0; bi < bs.size(); ++bi) {
            int b = bs[bi];
            Stats st;
            double c = cap > 0 ? cap : budget();
            Found f = explore(m, b, nw, c, st);
            if (f.internal || f.found) {
                std::string msg, notes; int r = 0; bool whole = false;
                if (f.found && !f.internal) {
                    r = run_one(m, b, f.trace, m.hang_s * 3, msg, notes);
                    if (r == 0) r = run_one(m, b, f.trace, m.hang_s * 3, msg, notes);
                }
                if (f.internal || r == 0 || r == 3) {
                    // The execution alone does not fail (or the real code does not behave the same from one execution to the next):
                    // the failure needs what earlier executions left behind. Two runs by a single worker must fail in the same way.
                    Found g[2];
                    for (int k = 0; k < 2; ++k) { munmap(S, sizeof(Shared)); S = nullptr; Stats x; g[k] = explore(m, b, 1, 120, x); }
                    auto same = [](const Found& x, const Found& y) { if (x.trace.size() != y.trace.size()) return false; for (size_t i = 0; i < x.trace.size(); ++i) if (x.trace[i].c != y.trace[i].c) return false; return true; };
                    if (!(g[0].found && g[1].found && !g[0].internal && !g[1].internal && same(g[0], g[1]))) {
                        printf("ERROR: property=%s model=%s bound=%d: %s, but it does not replay\nchoices: %s\n", prop.c_str(), m.name, b, f.msg.c_str(), choices(f.trace).c_str());
                        return 2;
                    }
                    f = g[0]; msg = g[0].msg; notes = "fails only after the executions that precede it: run with --model " + std::string(m.name) + " --bound " + std::to_string(b) + " --workers 1\n"; whole = true;
                }
                (void)whole;
                bool isknown = false;
                for (auto& k : kf) if (k.model == m.name && msg.find(k.part) != std::string::npos) { printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.desc.c_str()); fflush(stdout); isknown = true; break; }
                if (isknown) {
                    if (!mj.empty()) mj += ",";
                    mj += "{\"model\":" + jstr(m.name) + ",\"what\":" + jstr(m.what) + ",\"bound\":" + std::to_string(b) + ",\"executions\":" + std::to_string(st.execs) + ",\"known_finding\":" + jstr(msg) + "}";
                    munmap(S, sizeof(Shared)); S = nullptr;
                    continue;
                }
                mkdir(reps.c_str(), 0777);
                std::string path = reps + "/" + prop + "-" + m.name + ".txt";
                std::ofstream o(path);
                o << "property: " << prop << "\nmodel: " << m.name << "\nbound: " << b << "\nchoices: " << choices(f.trace) << "\nfailure: " << msg << "\n--- execution ---\n" << notes;
                o.close();
                printf("model %s, bound %d: %s\n%s", m.name, b, msg.c_str(), notes.substr(0, 6000).c_str());
                printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
                fflush(stdout);
                // evidence
                std::ofstream e(evid + "/" + prop + ".json");
                e << "{\"property\":" << jstr(prop) << ",\"tier\":" << jstr(tier) << ",\"seed\":" << seed << ",\"level\":\"model_checking\",\"coverage\":{\"states\":" << tot.states + st.states << ",\"transitions\":" << tot.steps + st.steps
                  << ",\"traces_validated_against_impl\":" << tot.execs + st.execs << ",\"samples\":[" << jstr(msg + "\n" + notes.substr(0, 3000)) << "],\"exhaustive\":false},\"wall_s\":" << now() - T0 << ",\"violations\":1}\n";
                return 1;
            }
            printf("%s/%s bound %d: %llu executions, %llu states, %llu transitions, %llu outcomes, max %llu choices, %.1fs%s%s\n", prop.c_str(), m.name, b,
                   (unsigned long long)st.execs, (unsigned long long)st.states, (unsigned long long)st.steps, (unsigned long long)st.outcomes, (unsigned long long)st.maxlen, st.wall,
                   st.complete ? "" : " (time cap hit: not exhaustive)", st.hashfull ? " (state table full)" : "");
            fflush(stdout);
            if (!st.complete) all = false;
            if (bi + 1 == bs.size()) {
                tot.execs += st.execs; tot.states += st.states; tot.steps += st.steps; tot.outcomes += st.outcomes; tot.points += st.points;
                // samples
                for (int k = 0; k < 4; ++k) if (S->samples[k].used == 2) {
                    std::string msg, notes;
                    std::vector<Lv> tr(S->samples[k].lv, S->samples[k].lv + S->samples[k].len);
                    if (k == 0 && S->samples[2].used == 2) continue;
                    int r = run_one(m, b, tr, m.hang_s * 3, msg, notes);
                    if (r != 0) { printf("ERROR: property=%s model=%s: a passing execution does not replay: %s\nchoices: %s\n", prop.c_str(), m.name, msg.c_str(), choices(tr).c_str()); return 2; }
                    if (notes.size() > 1500) notes = notes.substr(0, 1500) + "...";
                    if (!samples.empty()) samples += ",";
                    samples += jstr(std::string(m.name) + ":\n" + notes);
                }
            }
            if (!mj.empty()) mj += ",";
            mj += "{\"model\":" + jstr(m.name) + ",\"what\":" + jstr(m.what) + ",\"bound\":" + std::to_string(b) + ",\"executions\":" + std::to_string(st.execs) + ",\"pruned\":" + std::to_string(st.pruned) + ",\"states\":" + std::to_string(st.states)
                + ",\"transitions\":" + std::to_string(st.steps) + ",\"choice_points\":" + std::to_string(st.points) + ",\"distinct_outcomes\":" + std::to_string(st.outcomes) + ",\"complete\":" + (st.complete ? "true" : "false") + ",\"wall_s\":" + std::to_string(st.wall) + "}";
            munmap(S, sizeof(Shared)); S = nullptr;
        }
    }
    if (!nm) { fprintf(stderr, "no model for property %s\n", prop.c_str()); return 2; }
    mkdir(evid.c_str(), 0777);
    std::ofstream e(evid + "/" + prop + ".json");
    std::string as;
    for (auto& a : assumes()) if (a.first == prop || a.first == "*") { if (!as.empty()) as += ","; as += jstr(a.second); }
    e << "{\"property\":" << jstr(prop) << ",\"tier\":" << jstr(tier) << ",\"seed\":" << seed << ",\"level\":\"model_checking\",\"coverage\":{\"states\":" << tot.states << ",\"transitions\":" << tot.steps
      << ",\"traces_validated_against_impl\":" << tot.execs << ",\"distinct_outcomes\":" << tot.outcomes << ",\"exhaustive\":" << (all ? "true" : "false") << ",\"models\":[" << mj << "],\"samples\":[" << samples << "]},\"assumptions\":[" << as << "],\"wall_s\":" << now() - T0 << ",\"violations\":0}\n";
    e.close();
    printf("%s: held on everything explored (%s)\n", prop.c_str(), all ? "exhaustive within the bounds" : "time cap hit");
    return 0;
}

} // namespace mc
#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::run(argc, argv); }
#endif
