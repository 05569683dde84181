// C21: an asio-based scheduler under the controlled thread scheduler. Included once per library, with the macros
// NS (namespace), ASIO (namespace of the library), SCHED (scheduler class), LIBNAME
#include "fib.h"
#include <functional>
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>
using namespace std;
using namespace mc;
using fib::Quiet;

namespace NS {
using Sched = SCHED; using Ctxt = ASIO::io_context; using Guard = ASIO::executor_work_guard<Ctxt::executor_type>;
struct Boom : runtime_error { Boom() : runtime_error("boom") {} };
struct Rec { int posted = -1, done = -1, started = -1, runner = -1, order = -1, kind = 0, gone = 0; };
struct FS { bool in_post = false; int in_run = 0; int step_began = -1; };
enum Own { OWNED, GUARDED, BARE };
struct T {
    unique_ptr<Ctxt> ext; unique_ptr<Guard> guard; unique_ptr<Sched> s; Own own;
    vector<Rec> t; int clock = 0, starts = 0, expected = 0, finished = 0; FS fs[16]; int stop_begin = -1, stop_end = -1; vector<unique_ptr<int>> payload;
    explicit T(Own o) : own(o) {}
    void make() { if (own == OWNED) s = make_unique<Sched>(); else s = make_unique<Sched>(*ext); }
    Ctxt& ctx() { return own == OWNED ? s->AsioContext() : *ext; }
};
T* W;
struct World {
    explicit World(Own o) { { Quiet q; W = new T(o); W->t.reserve(64); W->payload.reserve(64); } if (o != OWNED) W->ext = make_unique<Ctxt>(); if (o == GUARDED) W->guard = make_unique<Guard>(ASIO::make_work_guard(*W->ext)); W->make(); }
    ~World() { close(); Quiet q; delete W; W = nullptr; }
    void close() { W->s.reset(); W->guard.reset(); W->ext.reset(); }
};
enum Kind { PLAIN, NESTED, THROW, STOP, POLLS };
// what a task carries: it must disappear with the task
struct Load { int id; explicit Load(int i) : id(i) {} ~Load() { Quiet q; if (W) ++W->t[id].gone; } };
void post(Kind k);
void began(int id)
{
    Quiet q; Rec& r = W->t[id]; int f = fib::self(); FS& fs = W->fs[f];
    if (r.started >= 0) fib::fail("task " + to_string(id) + " is executed twice");
    if (r.gone) fib::fail("task " + to_string(id) + " is executed after it was destroyed");
    r.started = W->clock++; r.runner = f; r.order = W->starts++;
    if (fs.in_post) fib::fail("task " + to_string(id) + " runs inside Post");
    if (fs.in_run <= 0) fib::fail("task " + to_string(id) + " runs outside of the calls that run the scheduler");
    if (fib::held()) fib::fail("task " + to_string(id) + " runs with a lock held");
    for (size_t o = 0; o < W->t.size(); ++o) if ((int)o != id) {
        Rec& x = W->t[o]; if (x.started >= 0 && x.runner == f && r.done >= 0 && x.posted > r.done) fib::fail("task " + to_string(o) + " was started before task " + to_string(id) + ", which had been posted before it");
    }
    if (W->stop_end >= 0 && fs.step_began > W->stop_end) fib::fail("task " + to_string(id) + " was started by a step called after Stop had returned");
    if (W->stop_end >= 0) { int after = 0; for (auto& x : W->t) if (x.started > W->stop_end && x.runner == f) ++after; if (after > 1) fib::fail("a thread went on starting tasks after Stop had returned"); }
}
void stop() { { Quiet q; if (W->stop_begin < 0) W->stop_begin = W->clock++; } W->s->Stop(); Quiet q; if (W->stop_end < 0) W->stop_end = W->clock++; }
void body(int id, Kind k)
{
    began(id);
    if (*W->payload[id] != id + 1) fib::fail("a task does not see what was written before Post");
    *W->payload[id] = -id;
    switch (k) {
        case NESTED: post(PLAIN); break;
        case STOP: stop(); break;
        case POLLS: { { Quiet q; ++W->fs[fib::self()].in_run; } try { W->s->PollOne(); } catch (...) { Quiet q; --W->fs[fib::self()].in_run; { ++W->finished; } throw; } Quiet q; --W->fs[fib::self()].in_run; break; }
        default: break;
    }
    { Quiet q; ++W->finished; }
    if (k == THROW) throw Boom();
}
void post(Kind k)
{
    int id; unique_ptr<int> p = make_unique<int>(0);
    { Quiet q; id = W->t.size(); W->t.push_back({}); W->payload.push_back(nullptr); W->t[id].kind = k; ++W->expected; }
    *p = id + 1; auto l = make_shared<Load>(id); function<void()> f = [id, k, l] { body(id, k); }; l.reset();
    FS* fs; bool old; { Quiet q; W->payload[id] = move(p); fs = &W->fs[fib::self()]; old = fs->in_post; fs->in_post = true; W->t[id].posted = W->clock++; }
    W->s->Post(f);
    { Quiet q; fs->in_post = old; W->t[id].done = W->clock++; }
}
enum How { POLL, EXEC, RUN, CTXPOLL, CTXRUN };
// returns whether it threw
bool step(int how)
{
    FS* fs; { Quiet q; fs = &W->fs[fib::self()]; ++fs->in_run; fs->step_began = W->clock++; }
    bool threw = false;
    try { switch (how) { case POLL: W->s->PollOne(); break; case EXEC: W->s->ExecOne(); break; case RUN: W->s->Run(); break; case CTXPOLL: W->ext->poll_one(); break; default: W->ext->run(); } } catch (const Boom&) { threw = true; }
    Quiet q; --fs->in_run; return threw;
}
bool all_done() { return W->finished == W->expected; }
void outcomes(Ctx& c) { Quiet q; uint64_t h = 7; string tr; for (auto& r : W->t) { h = mix(h, r.order * 8 + r.runner); tr += to_string(r.order) + "@T" + to_string(r.runner) + " "; } c.outcome(h); c.note("tasks (start order@thread): " + tr); }
void all_gone() { Quiet q; for (size_t i = 0; i < W->t.size(); ++i) if (W->t[i].gone != 1) fib::fail("what task " + to_string(i) + " carries was destroyed " + to_string(W->t[i].gone) + " times"); }

Reg seq({"C21", LIBNAME "-sequences", "every sequence of up to the bound operations (post of a plain, posting, throwing, polling or stopping task; PollOne; ExecOne and Run when they would not wait; Stop; destruction and construction of the scheduler; for external contexts a poll, a restart by their owner) for an owned context, an external one and an external one kept alive, compared with a queue",
    {4, 5}, {6, 7}, [](Ctx& c) {
        Own own = Own(c.choose(3, "context"));
        fib::go(c, 0, [&] {
            World w(own); vector<pair<int, Kind>> q; bool stopped = false; string tr; int ids = 0; vector<int> want; // model: ids in execution order
            bool alive = own != BARE; // the context does not run out of work
            auto ex = [&](auto& self, int running) -> bool { // runs the first task
                auto x = q.front(); q.erase(q.begin()); want.push_back(x.first); bool threw = false;
                switch (x.second) { case NESTED: q.push_back({ids++, PLAIN}); break; case STOP: stopped = true; break; case THROW: threw = true; break; case POLLS: if (!stopped && !q.empty()) threw = self(self, running + 1); break; default: break; }
                if (!alive && running == 0 && q.empty()) stopped = true;
                return threw; };
            auto one = [&]() -> bool { if (stopped) return false; if (q.empty()) { if (!alive) stopped = true; return false; } return ex(ex, 0); };
            for (int i = 0; i < c.bound(); ++i) {
                unsigned n = own == OWNED ? 10 : 12, k = c.choose(n, "operation"); { Quiet z; static const char* N[] = {"plain", "posting", "throwing", "stopping", "polling", "PollOne", "ExecOne", "Run", "Stop", "recreate", "restart", "ctx.poll_one"}; tr += string(N[k]) + " "; }
                Quiet z; bool wt = false, gt = false;
                auto act = [&](int how) { fib::Loud l; return step(how); };
                if (k < 5) { q.push_back({ids++, Kind(k)}); fib::Loud l; post(Kind(k)); }
                else if (k == 5) { wt = one(); gt = act(POLL); }
                else if (k == 6) { if (q.empty() && !stopped && alive) { c.prune(); return; } wt = one(); gt = act(EXEC); }
                else if (k == 7) { // would it end?
                    if (alive && !stopped) { bool ends = false; for (auto& x : q) ends |= x.second == STOP || x.second == THROW; if (!ends) { c.prune(); return; } }
                    auto ran = want.size(); bool first = true; (void)ran; while (!wt && (first || !stopped)) { first = false; if (stopped) break; if (q.empty()) { if (!alive) stopped = true; break; } wt = one(); }
                    gt = act(RUN); }
                else if (k == 8) { stopped = true; fib::Loud l; stop(); }
                else if (k == 9) { { fib::Loud l; W->s.reset(); if (own == OWNED) { for (auto& x : q) { Quiet z2; if (W->t[x.first].gone != 1 || W->t[x.first].started >= 0) fib::fail("a task pending in a destroyed scheduler was not simply dropped after " + tr); } } W->make(); } if (own == OWNED) { q.clear(); stopped = false; W->stop_begin = W->stop_end = -1; } }
                else if (k == 10) { stopped = false; { fib::Loud l; W->ext->restart(); } W->stop_begin = W->stop_end = -1; }
                else { wt = one(); gt = act(CTXPOLL); }
                if (wt != gt) fib::fail(string("a step ") + (gt ? "throws" : "does not throw what its task threw") + " after " + tr);
                if (W->starts != (int)want.size()) fib::fail(to_string(W->starts) + " tasks were started, expected " + to_string(want.size()) + " after " + tr);
                for (size_t j = 0; j < want.size(); ++j) if (W->t[want[j]].order != (int)j) fib::fail("tasks out of order after " + tr);
                if (W->s->Stopped() != stopped) fib::fail("Stopped() is wrong after " + tr);
                if (W->t.size() != (size_t)ids) fib::fail("harness: posts differ");
                uint64_t h = stopped; for (auto& x : q) h = mix(h, x.second); c.state(h);
            }
            w.close(); all_gone(); outcomes(c);
        });
    }});

Reg many({"C21", LIBNAME "-many", "1 to 3000 tasks posted before the scheduler runs (Run, ExecOne, PollOne), for owned and external contexts: each is run once, in order",
    {0}, {1}, [](Ctx& c) {
        int n = size_choice(c), how = c.choose(3, "how"); Own own = c.choose(2, "context") ? GUARDED : OWNED;
        fib::go(c, 0, [&] {
            Quiet q; fib::atomics(false); unique_ptr<Ctxt> ext; unique_ptr<Guard> g; if (own != OWNED) { ext = make_unique<Ctxt>(); g = make_unique<Guard>(ASIO::make_work_guard(*ext)); }
            vector<int> ran; ran.reserve(n + 1); { auto s = own == OWNED ? make_unique<Sched>() : make_unique<Sched>(*ext);
            for (int i = 0; i < n; ++i) s->Post([&ran, i] { ran.push_back(i); });
            if (how == 0) { s->Post([&s] { s->Stop(); }); s->Run(); } else { for (int i = 0; i < n; ++i) if (how == 1) s->ExecOne(); else s->PollOne(); if ((int)ran.size() != n) fib::fail(to_string(n) + " steps ran " + to_string(ran.size()) + " tasks"); s->PollOne(); } }
            bool ok = (int)ran.size() == n; for (int i = 0; ok && i < n; ++i) ok = ran[i] == i;
            if (!ok) fib::fail(to_string(ran.size()) + " of " + to_string(n) + " queued tasks were run, or not in order"); fib::atomics(true); c.state(n); c.outcome(ran.size());
        });
    }});

struct Cfg { int posters; vector<Kind> tasks; int runners; int how; };
Reg threads({"C21", LIBNAME "-threads", "every interleaving (up to the preemption bound) of 1 or 2 posting threads (1 or 2 tasks each: plain, posting, throwing, polling) with 1 or 2 threads running the scheduler (Run, ExecOne, PollOne) or the external context, for owned and external contexts",
    {0, 1, 12}, {2, 3}, [](Ctx& c) {
        static const vector<Cfg> all = {{2, {PLAIN}, 1, RUN}, {1, {PLAIN, PLAIN}, 2, RUN}, {1, {NESTED, PLAIN}, 1, RUN}, {1, {THROW, PLAIN}, 1, RUN}, {1, {PLAIN, PLAIN}, 1, EXEC}, {1, {THROW, NESTED}, 1, EXEC}, {1, {POLLS, PLAIN}, 1, RUN}, {1, {PLAIN, NESTED}, 1, POLL}, {1, {PLAIN, PLAIN}, 1, CTXRUN}, {2, {PLAIN}, 1, CTXRUN}, {2, {NESTED}, 2, RUN}, {2, {PLAIN, PLAIN}, 2, EXEC}};
        bool small = c.bound() >= 10; auto& f = all[c.choose(small ? 4 : all.size(), "configuration")]; Own own = f.how == CTXRUN ? GUARDED : Own(c.choose(2, "context"));
        fib::go(c, c.bound() % 10, [&] {
            World w(own); int left = f.posters; vector<thread> th; bool ending = false;
            for (int i = 0; i < f.posters; ++i) th.emplace_back([&] { fib::name("poster"); for (auto k : f.tasks) post(k); Quiet q; --left; });
            for (int i = 0; i < f.runners; ++i) th.emplace_back([&] {
                fib::name("runner");
                if (f.how == RUN || f.how == CTXRUN) { while (step(f.how)); Quiet q; if (W->stop_begin < 0) fib::fail("Run returned although nobody called Stop"); }
                else if (f.how == EXEC) for (;;) { int n0, n1; { Quiet q; n0 = 0; for (auto& r : W->t) n0 += r.runner == fib::self(); } step(EXEC); Quiet q; n1 = 0; for (auto& r : W->t) n1 += r.runner == fib::self(); if (W->stop_begin < 0 && n1 == n0) fib::fail("ExecOne returned without having run a task, and nobody called Stop"); if (n1 == n0) break; }
                else for (;;) { fib::until([&] { Quiet q; return left == 0 || ending; }, "posted"); step(POLL); Quiet q; if (all_done() || ending) break; fib::point("idle"); }
            });
            fib::until([&] { Quiet q; return left == 0 && all_done(); }, "all tasks done");
            { Quiet q; ending = true; }
            stop(); for (auto& t : th) t.join();
            if (!W->s->Stopped()) fib::fail("Stopped() is false after Stop");
            w.close(); { Quiet q; for (size_t i = 0; i < W->t.size(); ++i) if (W->t[i].started < 0) fib::fail("task " + to_string(i) + " was never executed"); } all_gone(); outcomes(c);
        });
    }});
Reg stops({"C21", LIBNAME "-stop", "every interleaving of 1 or 2 waiting threads (Run or ExecOne), a posting thread, and Stop called by 1 or 2 other threads or by a task: all return, at most the task already taken is started, Stopped() holds, later steps return at once and start nothing; what was not run is dropped with the scheduler",
    {0, 1, 12}, {2, 3}, [](Ctx& c) {
        bool small = c.bound() >= 10;
        Own own = Own(c.choose(2, "context")); int runners = 1 + c.choose(small ? 1 : 2, "runners"), how = c.choose(2, "Run/ExecOne") ? EXEC : RUN, tasks = c.choose(small ? 2 : 3, "tasks"), inside = tasks ? c.choose(2, "Stop inside a task") : 0, stoppers = c.choose(inside ? 2 : 3, "stopping threads"); if (!inside && !stoppers) { c.prune(); return; }
        fib::go(c, c.bound() % 10, [&] {
            World w(own); vector<thread> th;
            for (int i = 0; i < runners; ++i) th.emplace_back([&] { fib::name("runner"); for (;;) { int n0, n1; { Quiet q; n0 = 0; for (auto& r : W->t) n0 += r.runner == fib::self(); } step(how); Quiet q; n1 = 0; for (auto& r : W->t) n1 += r.runner == fib::self(); if (how == RUN || n1 == n0) { if (W->stop_begin < 0) fib::fail("the loop returned although nobody called Stop"); break; } } });
            if (tasks) th.emplace_back([&] { fib::name("poster"); for (int i = 0; i < tasks; ++i) post(inside && i == tasks / 2 ? STOP : PLAIN); });
            for (int i = 0; i < stoppers; ++i) th.emplace_back([&] { fib::name("stopper"); stop(); });
            for (auto& t : th) t.join();
            if (!W->s->Stopped()) fib::fail("Stopped() is false after Stop");
            int n; { Quiet q; n = W->starts; } step(POLL); step(EXEC); step(RUN); post(PLAIN); step(POLL); step(EXEC); { Quiet q; if (W->starts != n) fib::fail("a task was started after Stop"); }
            w.close(); all_gone(); outcomes(c);
        });
    }});
Reg extd({"C21", LIBNAME "-external-outlives", "every interleaving of a thread running an external context with a thread that posts through a scheduler, destroys it and posts through another one: the context goes on, every task is executed",
    {0, 1, 2}, {3, 4}, [](Ctx& c) {
        int first = c.choose(3, "tasks before"), second = c.choose(2, "tasks after"), again = c.choose(2, "run by the second scheduler");
        fib::go(c, c.bound(), [&] {
            World w(GUARDED); thread r([&] { fib::name("runner"); while (step(CTXRUN)); });
            for (int i = 0; i < first; ++i) post(i ? THROW : PLAIN);
            W->s.reset(); if (W->ext->stopped()) fib::fail("destroying a scheduler stops the external context");
            W->make(); for (int i = 0; i < second; ++i) post(PLAIN);
            fib::until([&] { Quiet q; return all_done(); }, "all tasks done");
            if (W->ext->stopped()) fib::fail("the external context stopped");
            (void)again; if (again) stop(); else { { Quiet q; W->stop_begin = W->clock++; } W->ext->stop(); }
            r.join(); w.close(); all_gone(); outcomes(c);
        });
    }});
}
