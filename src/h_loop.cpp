// C19, C20: LoopScheduler under a controlled thread scheduler
#include "fib.h"
#include <cli/loopscheduler.h>
#include <functional>
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>
using namespace std;
using namespace mc;
using fib::Quiet;

namespace {
struct Boom : runtime_error { Boom() : runtime_error("boom") {} };
struct Rec { int posted = -1, done = -1, started = -1, runner = -1, order = -1, kind = 0; };
struct FS { bool in_post = false; int in_run = 0; int step_began = -1; int tasks_in_step = 0; };
struct T {
    unique_ptr<cli::LoopScheduler> s; vector<Rec> t; int clock = 0, starts = 0; FS fs[16]; int stop_begin = -1, stop_end = -1; string trace; vector<unique_ptr<int>> payload;
    T() : s(make_unique<cli::LoopScheduler>()) { Quiet q; t.reserve(64); payload.reserve(64); }
    int expected = 0, finished = 0;
};
T* W;
enum Kind { PLAIN, NESTED, THROW, STOP, POLLIN, EMPTYF };
void post(Kind k, int depth = 1);
void began(int id)
{
    Quiet q; Rec& r = W->t[id]; int f = fib::self(); FS& fs = W->fs[f];
    if (r.started >= 0) fib::fail("task " + to_string(id) + " is executed twice");
    r.started = W->clock++; r.runner = f; r.order = W->starts++;
    if (fs.in_post) fib::fail("task " + to_string(id) + " runs inside Post");
    if (fs.in_run <= 0) fib::fail("task " + to_string(id) + " runs outside of the calls that run the scheduler");
    if (fib::held()) fib::fail("task " + to_string(id) + " runs with a lock held");
    for (size_t o = 0; o < W->t.size(); ++o) if ((int)o != id) {
        Rec& x = W->t[o];
        if (x.started >= 0 && x.runner == f && x.kind != EMPTYF && r.done >= 0 && x.posted > r.done) fib::fail("task " + to_string(o) + " was started before task " + to_string(id) + ", which had been posted before it");
    }
    ++fs.tasks_in_step;
    if (W->stop_end >= 0 && fs.step_began > W->stop_end) fib::fail("task " + to_string(id) + " was started by a step called after Stop had returned");
    if (W->stop_end >= 0) { int after = 0; for (auto& x : W->t) if (x.started > W->stop_end && x.runner == f) ++after; if (after > 1) fib::fail("a thread went on starting tasks after Stop had returned"); }
}
void body(int id, Kind k, int depth)
{
    began(id);
    if (*W->payload[id] != id + 1) fib::fail("a task does not see what was written before Post");
    *W->payload[id] = -id;
    switch (k) {
        case NESTED: post(PLAIN); if (depth > 1) post(NESTED, depth - 1); break;
        case STOP: { { Quiet q; if (W->stop_begin < 0) W->stop_begin = W->clock++; } W->s->Stop(); Quiet q; if (W->stop_end < 0) W->stop_end = W->clock++; break; }
        case POLLIN: { { Quiet q; ++W->fs[fib::self()].in_run; } W->s->PollOne(); Quiet q; --W->fs[fib::self()].in_run; break; }
        default: break;
    }
    { Quiet q; ++W->finished; }
    if (k == THROW) throw Boom();
}
void post(Kind k, int depth)
{
    int id; unique_ptr<int> p = make_unique<int>(0);
    { Quiet q; id = W->t.size(); W->t.push_back({}); W->payload.push_back(nullptr); W->t[id].kind = k; W->expected += k != EMPTYF; if (k == NESTED) {} }
    *p = id + 1; function<void()> f; if (k != EMPTYF) f = [id, k, depth] { body(id, k, depth); };
    FS* fs; bool old; { Quiet q; W->payload[id] = move(p); fs = &W->fs[fib::self()]; old = fs->in_post; fs->in_post = true; W->t[id].posted = W->clock++; }
    W->s->Post(f);
    { Quiet q; fs->in_post = old; W->t[id].done = W->clock++; }
}
enum Ret { NO, YES, THREW };
// one step; how: 0 ExecOne, 1 PollOne
Ret step(int how)
{
    FS* fs; { Quiet q; fs = &W->fs[fib::self()]; ++fs->in_run; fs->step_began = W->clock++; fs->tasks_in_step = 0; }
    Ret r; try { r = (how ? W->s->PollOne() : W->s->ExecOne()) ? YES : NO; } catch (const Boom&) { r = THREW; }
    { Quiet q; --fs->in_run; }
    return r;
}
// Run until it returns
void run()
{
    for (;;) {
        FS* fs; { Quiet q; fs = &W->fs[fib::self()]; ++fs->in_run; fs->step_began = W->clock++; }
        bool threw = false; try { W->s->Run(); } catch (const Boom&) { threw = true; }
        { Quiet q; --fs->in_run; }
        if (!threw) break;
    }
    bool st; { Quiet q; st = W->stop_begin >= 0; } if (!st) fib::fail("Run returned although nobody called Stop");
    if (!W->s->Stopped()) fib::fail("Run returned and Stopped() is false");
}
void stop() { { Quiet q; if (W->stop_begin < 0) W->stop_begin = W->clock++; } W->s->Stop(); Quiet q; if (W->stop_end < 0) W->stop_end = W->clock++; }
void start_world() { Quiet q; W = new T; }
void end_world(Ctx& c, bool all)
{
    Quiet q;
    if (all) for (size_t i = 0; i < W->t.size(); ++i) if (W->t[i].started < 0 && W->t[i].kind != EMPTYF) fib::fail("task " + to_string(i) + " was never executed");
    uint64_t h = 7; string tr; for (auto& r : W->t) { h = mix(h, r.order * 8 + r.runner); tr += to_string(r.order) + "@T" + to_string(r.runner) + " "; } c.outcome(h); c.note("tasks (start order@thread): " + tr);
}
bool all_done() { return W->finished == W->expected; }
struct World { World() { start_world(); } ~World() { delete W; W = nullptr; } };

// ---------------------------------------------------------------- C19
struct Cfg { int posters; vector<Kind> tasks; int runners; int how; }; // how: 0 Run, 1 ExecOne loops, 2 PollOne loops
const vector<Cfg>& cfgs()
{
    static const vector<Cfg> v = {
        {2, {PLAIN, PLAIN}, 1, 0}, {1, {PLAIN, PLAIN, PLAIN}, 2, 0}, {2, {PLAIN}, 2, 0}, {2, {NESTED}, 1, 0}, {1, {NESTED, PLAIN}, 2, 0}, {2, {THROW, PLAIN}, 1, 0}, {1, {THROW, NESTED}, 2, 0},
        {2, {PLAIN, PLAIN}, 1, 1}, {1, {EMPTYF, PLAIN}, 1, 0}, {2, {NESTED}, 1, 1}, {1, {PLAIN, THROW}, 2, 1}, {1, {PLAIN, POLLIN, PLAIN}, 1, 0}, {1, {PLAIN, NESTED}, 1, 2}, {2, {PLAIN}, 2, 2}, {1, {POLLIN, PLAIN, PLAIN}, 2, 0}};
    return v;
}
Reg c19a({"C19", "threads", "every interleaving (up to the preemption bound) of 1 or 2 posting threads (1 to 3 tasks each: plain, posting, throwing, polling, empty) with 1 or 2 threads running the scheduler (Run, ExecOne, PollOne)",
    {0, 1, 2, 3}, {2, 3, 4}, [](Ctx& c) {
        auto& f = cfgs()[c.choose(cfgs().size(), "configuration")];
        fib::go(c, c.bound(), [&] {
            World w; int left = f.posters;
            vector<thread> th;
            for (int i = 0; i < f.posters; ++i) th.emplace_back([&] { fib::name("poster"); for (auto k : f.tasks) post(k); Quiet q; --left; });
            for (int i = 0; i < f.runners; ++i) th.emplace_back([&] {
                fib::name("runner");
                if (f.how == 0) run();
                else if (f.how == 1) while (step(0) != NO);
                else for (;;) { fib::until([&] { Quiet q; return left == 0 || W->stop_begin >= 0; }, "posted"); if (step(1) == NO) { Quiet q; if (all_done() || W->stop_begin >= 0) break; fib::point("idle"); } }
            });
            fib::until([&] { Quiet q; return left == 0 && all_done(); }, "all tasks done");
            stop(); for (auto& t : th) t.join();
            end_world(c, true);
        });
    }});
Reg c19b({"C19", "sequences", "every sequence of up to the bound operations (post of a plain, posting, throwing, polling, stopping or empty task; ExecOne when something is there; PollOne; Stop) on one thread, compared with a queue",
    {5, 6}, {7, 8}, [](Ctx& c) {
        fib::go(c, 0, [&] {
            World w; vector<pair<int, Kind>> q; bool stopped = false; string tr;   // model
            auto model_step = [&]() -> Ret { if (stopped || q.empty()) return NO; Ret r = YES; function<void(int)> ex = [&](int) { auto x = q.front(); q.erase(q.begin()); int base = 0; (void)base; switch (x.second) { case NESTED: q.push_back({-1, PLAIN}); break; case STOP: stopped = true; break; case POLLIN: if (!stopped && !q.empty()) ex(0); break; case THROW: r = THREW; break; default: break; } }; ex(0); return r; };
            for (int i = 0; i < c.bound(); ++i) {
                unsigned k = c.choose(9, "operation"); if (k == 6 && q.empty() && !stopped) k = 7; // ExecOne would wait: poll instead
                { Quiet z; tr += to_string(k) + " "; }
                size_t before; { Quiet z; before = W->starts; }
                bool polls_throwing = false; { Quiet z; for (auto& x : q) if (x.second == POLLIN) polls_throwing = true; }
                if (k < 6) { post(Kind(k)); Quiet z; q.push_back({0, Kind(k)}); }
                else if (k < 8) { (void)polls_throwing; Ret want; { Quiet z; want = model_step(); } Ret got = step(k - 6); if (got != want) fib::fail("step returned " + to_string(got) + ", expected " + to_string(want) + " after " + tr); (void)before; }
                else { stop(); Quiet z; stopped = true; }
                Quiet z; if (W->s->Stopped() != stopped) fib::fail("Stopped() is wrong after " + tr);
                uint64_t h = stopped; for (auto& x : q) h = mix(h, x.second); c.state(h);
            }
            // drain
            while (!stopped && !q.empty()) { Ret want; { Quiet z; want = model_step(); } Ret got = step(1); if (got != want) fib::fail("while draining: step returned " + to_string(got) + ", expected " + to_string(want) + " after " + tr); }
            if (step(1) != NO) fib::fail("a step on an empty scheduler does not say false after " + tr);
            Quiet z; if (!stopped) for (auto& r : W->t) if (r.started < 0 && r.kind != EMPTYF) fib::fail("a task was lost after " + tr);
            int last = -1; for (auto& r : W->t) if (r.started >= 0) { if (r.started < last) fib::fail("tasks out of order after " + tr); last = r.started; }
            end_world(c, false);
        });
    }});

// ---------------------------------------------------------------- C20
Reg c20a({"C20", "stop-wakes-everybody", "every interleaving of 1 or 2 waiting threads (Run or ExecOne) and a posting thread with Stop called from another thread or from a task, with spurious wakeups (bounds 1n: n preemptions without them): all return, at most the task already taken is started, Stopped() holds, steps return false at once",
    {0, 1, 12}, {2, 13}, [](Ctx& c) { // 1n: n preemptions, no spurious wakeups, one Stop
        int full = c.bound() < 10 ? 2 : 1;
        int runners = 1 + c.choose(2, "runners"), how = c.choose(2, "Run/ExecOne"), tasks = c.choose(4, "tasks"), inside = c.choose(2, "Stop inside a task"), spur = c.choose(full, "spurious"), both = c.choose(full, "stop twice");
        fib::go(c, c.bound() % 10, [&] {
            World w; fib::spurious(spur); vector<thread> th;
            for (int i = 0; i < runners; ++i) th.emplace_back([&] { fib::name("runner"); if (how == 0) run(); else for (;;) { int n0; { Quiet q; n0 = W->starts; } Ret r = step(0); Quiet q; if (r == YES && runners == 1 && W->starts == n0) fib::fail("a blocking step returned true without having run a task"); if (r == NO) { if (W->stop_begin < 0) fib::fail("a blocking step returned false although nobody called Stop"); break; } } });
            th.emplace_back([&] { fib::name("poster"); for (int i = 0; i < tasks; ++i) post(inside && i == tasks / 2 ? STOP : PLAIN); if (both) post(STOP); });
            if (!inside || !tasks) th.emplace_back([&] { fib::name("stopper"); stop(); });
            for (auto& t : th) t.join();
            if (!W->s->Stopped()) fib::fail("Stopped() is false after Stop");
            if (step(0) != NO || step(1) != NO) fib::fail("a step after Stop does not return false");
            post(PLAIN); if (step(0) != NO || step(1) != NO) fib::fail("a step after Stop does not return false");
            end_world(c, false);
        });
    }});
Reg c20b({"C20", "waiting-step-runs-what-comes", "every interleaving of 1 to 3 waiting ExecOne calls (one per thread) with as many posts, with spurious wakeups: each runs exactly one task and returns true (or throws what the task threw)",
    {0, 1, 12}, {2, 13}, [](Ctx& c) {
        int n = 1 + c.choose(3, "waiters"), spur = c.choose(c.bound() < 10 ? 2 : 1, "spurious"), thr = c.choose(n + 1, "which throws"), one = n == 3 ? 1 : n > 1 ? c.choose(2, "one posting thread") : 0;
        fib::go(c, c.bound() % 10, [&] {
            World w; fib::spurious(spur * 2); vector<thread> th; int yes = 0, threw = 0;
            for (int i = 0; i < n; ++i) th.emplace_back([&] { fib::name("waiter"); int b; { Quiet q; b = 0; for (auto& r : W->t) b += r.runner == fib::self(); } Ret r = step(0); Quiet q; int a = 0; for (auto& x : W->t) a += x.runner == fib::self(); if (r == NO) fib::fail("a waiting step returned false without Stop"); if (a - b != 1) fib::fail("a waiting step ran " + to_string(a - b) + " tasks"); (r == YES ? yes : threw)++; });
            if (one) th.emplace_back([&] { fib::name("poster"); for (int i = 0; i < n; ++i) post(i + 1 == thr ? THROW : PLAIN); });
            else for (int i = 0; i < n; ++i) th.emplace_back([&, i] { fib::name("poster"); post(i + 1 == thr ? THROW : PLAIN); });
            for (auto& t : th) t.join();
            if (threw != (thr > 0)) fib::fail("the exception of the task did not reach the caller of the step");
            if (step(1) != NO) fib::fail("something is left to run");
            if (W->s->Stopped()) fib::fail("Stopped() without Stop");
            end_world(c, true);
        });
    }});
Reg c20c({"C20", "poll-while-busy", "every interleaving of polling threads with a posting thread, a stopping thread and tasks that poll, post and stop: polls never wait, the tasks run are exactly the polls that said so",
    {0, 1, 2}, {2, 3, 4}, [](Ctx& c) {
        static const vector<vector<Kind>> P = {{PLAIN, PLAIN}, {NESTED}, {POLLIN, PLAIN}, {STOP, PLAIN}, {THROW, PLAIN}}; auto& ts = P[c.choose(P.size(), "tasks")]; int pollers = 1 + c.choose(2, "pollers"), stopper = c.choose(2, "stopper");
        fib::go(c, c.bound(), [&] {
            World w; vector<thread> th; int ran = 0;
            for (int i = 0; i < pollers; ++i) th.emplace_back([&] { fib::name("poller"); for (int k = 0; k < 3; ++k) { Ret r = step(1); Quiet q; if (r != NO) ++ran; } });
            th.emplace_back([&] { fib::name("poster"); for (auto k : ts) post(k); });
            if (stopper) th.emplace_back([&] { fib::name("stopper"); stop(); });
            for (auto& t : th) t.join();
            { Quiet q; int nested = 0; bool pollin = false; for (auto k : ts) pollin |= k == POLLIN; (void)nested; if (pollin ? ran > W->starts : ran != W->starts) fib::fail("polls said that they ran " + to_string(ran) + " tasks, " + to_string(W->starts) + " were started"); }
            bool st; while (step(1) != NO); { Quiet q; st = W->stop_begin >= 0; } if (!st) { Quiet q; if (!all_done()) fib::fail("a task was lost"); }
            if (W->s->Stopped() != st) fib::fail("Stopped() is wrong");
            end_world(c, !st);
        });
    }});
Reg c20d({"C20", "survives-throws", "every interleaving of a posting thread (tasks of which one or two throw) with one or two threads that run the scheduler again (Run, ExecOne or PollOne) after each exception: the exception reaches the caller, the scheduler is not stopped, what is queued is run",
    {0, 1, 2}, {3, 4}, [](Ctx& c) {
        static const vector<vector<Kind>> P = {{THROW}, {THROW, PLAIN}, {PLAIN, THROW, PLAIN}, {THROW, THROW}, {THROW, NESTED}}; auto& ts = P[c.choose(P.size(), "tasks")]; int how = c.choose(3, "Run/ExecOne/PollOne"), runners = 1 + c.choose(2, "runners");
        fib::go(c, c.bound(), [&] {
            World w; vector<thread> th; int threw = 0, want = 0; for (auto k : ts) want += k == THROW;
            for (int i = 0; i < runners; ++i) th.emplace_back([&] {
                fib::name("runner");
                for (;;) {
                    bool t = false, no = false;
                    if (how == 0) { { Quiet q; ++W->fs[fib::self()].in_run; } try { W->s->Run(); no = true; } catch (const Boom&) { t = true; } Quiet q; --W->fs[fib::self()].in_run; }
                    else if (how == 1) { Ret r = step(0); t = r == THREW; no = r == NO; }
                    else { fib::until([&] { Quiet q; return W->starts < (int)W->t.size() || W->stop_begin >= 0; }, "posted"); Ret r = step(1); t = r == THREW; Quiet q; no = r == NO && W->stop_begin >= 0; }
                    bool st; { Quiet q; threw += t; st = W->stop_begin >= 0; }
                    if (t && !st && W->s->Stopped()) { Quiet q; if (W->stop_begin < 0) fib::fail("the exception of a task stopped the scheduler"); }
                    if (no) { Quiet q; if (W->stop_begin < 0) fib::fail("the loop ended although nobody called Stop"); break; }
                }
            });
            th.emplace_back([&] { fib::name("poster"); for (auto k : ts) post(k); });
            fib::until([&] { Quiet q; return W->t.size() >= ts.size() && all_done() && threw == want; }, "all tasks done, all exceptions caught");
            stop(); for (auto& t : th) t.join();
            end_world(c, true);
        });
    }});
Reg c19m({"C19", "many", "1 to 5000 tasks posted before the scheduler runs (Run, ExecOne, PollOne), from one or two threads in turn: each is run once, in order",
    {1}, {2}, [](Ctx& c) {
        static const int N[] = {1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2048, 2049, 4096, 4097, 5000}; int n = N[c.choose(sizeof N / sizeof *N, "tasks")]; int how = c.choose(3, "how");
        Quiet q; cli::LoopScheduler s; vector<int> ran; ran.reserve(n + 1);
        for (int i = 0; i < n; ++i) s.Post([&ran, i] { ran.push_back(i); });
        if (how == 0) { s.Post([&s] { s.Stop(); }); s.Run(); } else for (int i = 0; i < n; ++i) if (!(how == 1 ? s.ExecOne() : s.PollOne())) { c.fail("a step on a queue of " + to_string(n) + " tasks says false after " + to_string(i)); return; }
        if (how && s.PollOne()) { c.fail("one task too many of " + to_string(n)); return; }
        bool ok = (int)ran.size() == n; for (int i = 0; ok && i < n; ++i) ok = ran[i] == i;
        c.check(ok, to_string(ran.size()) + " of " + to_string(n) + " queued tasks were run, or not in order"); c.step(n); c.state(n); c.outcome(ran.size());
    }});
}
