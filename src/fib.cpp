#include "fib.h"
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <poll.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <time.h>
#include <sys/single_threaded.h>
#include <dlfcn.h>
#include <link.h>
#include <new>
#include <exception>

// This file is not instrumented, and uses no templates shared with the instrumented files.
extern "C" void* __cxa_get_globals();
namespace fib {
enum { MAXF = 8, STACK = 256 * 1024, STEPS = 20000, PIPE = 65536, TYPED = 32768, FAIR = 400 };
typedef bool (*Ready)(void*);
struct Eh { void* caught; unsigned uncaught; };
struct Fiber {
    void* sp; char* stack; int state; // 0 unused, 1 live, 2 ended
    Ready ready; void* arg; const char* what; const void* obj;
    void* (*fn)(void*); void* fnarg; void* ret; bool detached, joined;
    uint32_t vc[MAXF]; Eh eh; int err; const char* nm; unsigned ops; int held; bool timed, low; void* tls[64];
};
static Fiber F[MAXF]; static int nf, cur = -1; static void* host; static Eh hosteh;
static mc::Ctx* C; static int budget, spur, quiet; static bool active, over, at_points; static unsigned steps, streak, limit;
static unsigned gen = 1;
static void (*mainbody)(void*); static void* mainarg;
static char* stacks[MAXF];

extern "C" void fib_switch(void** from, void* to);
asm(R"(
.text
.globl fib_switch
.type fib_switch,@function
fib_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size fib_switch,.-fib_switch
)");

[[noreturn]] static void full() { C->internal("the tables of the race detector are full"); abort(); }
// ------------------------------------------------ small hash tables, cleared by generation
template <class V, int BITS> struct Table {
    struct E { uintptr_t k; unsigned g; V v; };
    E* e; Table() { e = (E*)mmap(nullptr, sizeof(E) << BITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    V* find(uintptr_t k, bool add)
    {
        size_t m = (size_t(1) << BITS) - 1, i = (k * 0x9e3779b97f4a7c15ull) >> (64 - BITS);
        for (size_t n = 0; n <= m; ++n, i = (i + 1) & m) {
            if (e[i].g != gen) { if (!add) return nullptr; e[i].g = gen; e[i].k = k; memset((void*)&e[i].v, 0, sizeof(V)); return &e[i].v; }
            if (e[i].k == k) return &e[i].v;
        }
        full();
    }
};
struct Acc { uint8_t f, mask, write; uint32_t clk; const void* pc; };
struct Cell { uint8_t n, freed; Acc a[14]; };
struct Sync { int owner, count, id, kind; uint32_t vc[MAXF]; int readers; unsigned waiting; };
static Table<Cell, 17>& shadow() { static Table<Cell, 17> t; return t; }
static Table<Sync, 14>& syncs() { static Table<Sync, 14> t; return t; }
static int ids;
static Sync& sync_of(const void* p) { Sync* s = syncs().find((uintptr_t)p, true); if (!s->id) { s->id = ++ids; s->owner = -1; } return *s; }
static void vjoin(uint32_t* a, const uint32_t* b) { for (int i = 0; i < MAXF; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire(Sync& s) { vjoin(F[cur].vc, s.vc); }
static void release(Sync& s) { vjoin(s.vc, F[cur].vc); ++F[cur].vc[cur]; }

// ------------------------------------------------ scheduling
static std::string fname(int i) { char b[64]; snprintf(b, sizeof b, "T%d%s%s", i, F[i].nm ? ":" : "", F[i].nm ? F[i].nm : ""); return b; }
static void noting(const char* what, const void* obj)
{
    if (!C->noting()) return; Quiet q_;
    char b[256]; if (obj) snprintf(b, sizeof b, "%s %s #%d", fname(cur).c_str(), what, sync_of(obj).id); else snprintf(b, sizeof b, "%s %s", fname(cur).c_str(), what);
    C->notes_raw(b);
}
static unsigned pick_one(unsigned n, const char* w) { ++quiet; unsigned k = C->choose(n, w); --quiet; return k; }
// thread_local variables: the fibers share the storage of their host thread, so that of the program and of the C++ library is exchanged
struct Tls { char* at; const char* image; size_t size, init, off; }; static Tls tlsm[8]; static int ntls; static size_t tlsn; static uintptr_t tlslo, tlshi; static char* tlsbuf[MAXF + 1];
struct Dtor { void (*f)(void*); void* o; }; static Dtor dtors[MAXF][64]; static int ndtors[MAXF];
static int tls_module(dl_phdr_info* i, size_t, void*)
{
    for (int k = 0; k < i->dlpi_phnum; ++k) { auto& h = i->dlpi_phdr[k]; if (h.p_type != PT_TLS || !i->dlpi_tls_data) continue;
        uintptr_t a = (uintptr_t)i->dlpi_tls_data; if (!tlslo || a < tlslo) tlslo = a; if (a + h.p_memsz > tlshi) tlshi = a + h.p_memsz;
        if (ntls < 8 && (!*i->dlpi_name || strstr(i->dlpi_name, "libstdc++"))) { tlsm[ntls++] = Tls{(char*)a, (const char*)i->dlpi_addr + h.p_vaddr, h.p_memsz, h.p_filesz, tlsn}; tlsn += h.p_memsz; } }
    return 0;
}
static void tls_find() { static bool done; if (done) return; done = true; *(volatile int*)__errno_location(); __cxa_get_globals(); dl_iterate_phdr(tls_module, nullptr); for (auto& b : tlsbuf) b = (char*)malloc(tlsn + 1); }
static void tls_fresh(int f) { ndtors[f] = 0; for (int i = 0; i < ntls; ++i) { Tls& m = tlsm[i]; memcpy(tlsbuf[f] + m.off, m.image, m.init); memset(tlsbuf[f] + m.off + m.init, 0, m.size - m.init); } }
static void tls_save(int f) { for (int i = 0; i < ntls; ++i) memcpy(tlsbuf[f] + tlsm[i].off, tlsm[i].at, tlsm[i].size); }
static void tls_load(int f) { for (int i = 0; i < ntls; ++i) memcpy(tlsm[i].at, tlsbuf[f] + tlsm[i].off, tlsm[i].size); }
static void tls_end(int f) { while (ndtors[f]) { Dtor d = dtors[f][--ndtors[f]]; d.f(d.o); } }
static void swap_to(int t) // t = -1: the host
{
    Eh* g = (Eh*)__cxa_get_globals(); int from = cur; void** save = from < 0 ? &host : &F[from].sp;
    if (from < 0) hosteh = *g; else { F[from].eh = *g; F[from].err = errno; }
    tls_save(from < 0 ? MAXF : from); tls_load(t < 0 ? MAXF : t);
    cur = t;
    if (t < 0) *g = hosteh; else { *g = F[t].eh; }
    int e = t < 0 ? errno : F[t].err;
    bool was = active; active = t >= 0; (void)was;
    fib_switch(save, t < 0 ? host : F[t].sp);
    // back in 'from'
    (void)e; if (cur >= 0) errno = F[cur].err;
}
[[noreturn]] static void leave() { over = true; swap_to(-1); abort(); }
void fail(const std::string& m) { ++quiet; if (C->noting()) for (int i = 0; i < nf; ++i) if (F[i].state == 1) C->notes_raw("  " + fname(i) + ": at " + (F[i].what ? F[i].what : "?")); C->fail(m); leave(); }
void max_steps(unsigned n) { limit = n; }
static bool rdy(Fiber& f) { return !f.ready || f.ready(f.arg); }
// decides who runs next; the running fiber may be one of the candidates
static void pick()
{
    if (++steps > limit) fail("the threads go on forever (" + std::to_string(limit) + " operations)");
    ++quiet; C->step();
    int cand[MAXF], n = 0; bool curok = false, timed = false;
    for (int pass = 0; pass < 2 && !n; ++pass) {
        if (cur >= 0 && F[cur].state == 1 && (!F[cur].timed || pass) && !(F[cur].low && !pass) && rdy(F[cur])) { cand[n++] = cur; curok = !F[cur].low && !F[cur].timed; }
        for (int i = 0; i < nf; ++i) if (i != cur && F[i].state == 1 && (!F[i].timed || pass || rdy(F[i]))) { if (F[i].timed && pass) { cand[n++] = i; continue; } if (F[i].low && !pass && false) continue; if (rdy(F[i])) cand[n++] = i; }
        if (!n && pass == 0) { for (int i = 0; i < nf; ++i) if (F[i].state == 1 && F[i].timed) timed = true; }
        if (!n && pass == 1 && timed) for (int i = 0; i < nf; ++i) if (F[i].state == 1 && F[i].timed) cand[n++] = i;
    }
    if (!n) {
        bool live = false; for (int i = 0; i < nf; ++i) if (F[i].state == 1) live = true;
        if (!live) { --quiet; leave(); }
        std::string m = "deadlock:"; for (int i = 0; i < nf; ++i) if (F[i].state == 1) m += " " + fname(i) + " waits in " + (F[i].what ? F[i].what : "?") + ";";
        fail(m);
    }
    int k = 0; ++streak;
    bool fair = curok && streak > FAIR && n > 1;
    if (fair) { k = 1 + (int)(steps % (unsigned)(n - 1)); }
    else if (curok) { if (budget > 0) { k = C->choose(n, "thread"); if (k) --budget; } }
    else k = C->choose(n, "thread");
    int t = cand[k];
    uint64_t h = mc::mix(t, nf); for (int i = 0; i < nf; ++i) h = mc::mix(h, F[i].ops * 4 + F[i].state); C->state(h);
    if (t != cur && C->noting()) C->notes_raw(std::string("  -> ") + fname(t));
    --quiet;
    if (t != cur) { streak = 0; swap_to(t); }
}
static void wait_for(Ready r, void* a, const char* what, const void* obj = nullptr)
{
    Fiber& f = F[cur]; f.ready = r; f.arg = a; f.what = what; f.obj = obj; ++f.ops;
    pick();
    f.ready = nullptr; f.low = false;
    noting(what, obj);
}
static void* trampoline_body()
{
    Fiber& f = F[cur];
    if (cur == 0) {
        try { mainbody(mainarg); tls_end(cur); }
        catch (const std::exception& e) { fail(std::string("exception out of the program under test: ") + e.what()); }
        catch (...) { fail("exception out of the program under test"); }
    } else { f.ret = f.fn(f.fnarg); tls_end(cur); }   // an exception leaving a thread ends the program
    return nullptr;
}
static void trampoline()
{
    trampoline_body();
    Fiber& f = F[cur]; f.state = 2; ++f.ops; f.what = "ended"; noting("ends", nullptr);
    ++f.vc[cur];
    f.ready = nullptr; pick(); abort();
}
static void setup(int i)
{
    Fiber& f = F[i]; if (!stacks[i]) { stacks[i] = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(stacks[i], 4096, PROT_NONE); }
    tls_find(); tls_fresh(i); memset((void*)&f, 0, sizeof f); f.stack = stacks[i]; f.state = 1;
    uintptr_t top = ((uintptr_t)f.stack + STACK) & ~15ull; void** s = (void**)top; *--s = nullptr; *--s = (void*)trampoline; for (int k = 0; k < 6; ++k) *--s = nullptr; f.sp = s;
    f.vc[i] = 1;
}
// memory to be given back at the end of the execution
struct Freed { void* p; }; static Freed* freed; static int nfreed, capfreed;
void run(mc::Ctx& c, int preemptions, void (*body)(void*), void* arg)
{
    __libc_single_threaded = 0; // reference counts must be atomic
    C = &c; budget = preemptions; spur = 0; quiet = 0; over = false; steps = streak = 0; limit = STEPS; ids = 0; at_points = false; ++gen; nf = 1; mainbody = body; mainarg = arg;
    shadow(); syncs(); os::reset(); setup(0); cur = -1; swap_to(0); active = false;
    for (int i = 0; i < nfreed; ++i) free(freed[i].p); nfreed = 0; ++gen;
}
int self() { return cur; }
void name(const char* n) { F[cur].nm = n; }
void point(const char* what) { wait_for(nullptr, nullptr, what); }
void block(Ready r, void* a, const char* what) { wait_for(r, a, what); }
static bool r_idle(void* p) { for (int i = 0; i < nf; ++i) if (i != (int)(intptr_t)p && F[i].state == 1 && F[i].ready != r_idle && !F[i].timed && rdy(F[i])) return false; return true; }
void idle() { wait_for(r_idle, (void*)(intptr_t)cur, "idle"); }
int held() { return F[cur].held; }
int alive() { int n = 0; for (int i = 0; i < nf; ++i) n += F[i].state == 1; return n; }
void spurious(int n) { spur = n; }
void atomics(bool p) { at_points = p; }
Quiet::Quiet() : old(quiet) { ++quiet; }
Quiet::~Quiet() { --quiet; }
Loud::Loud() : old(quiet) { quiet = 0; }
Loud::~Loud() { quiet = old; }

// ------------------------------------------------ memory
static bool onstack(uintptr_t a) { return a >= (uintptr_t)F[cur].stack && a < (uintptr_t)F[cur].stack + STACK; }
static void race(uintptr_t a, const Acc& o, bool w, const void* pc)
{
    char b[300]; snprintf(b, sizeof b, "data race: %s of %s and %s of %s on the same memory, unordered (code at %p and %p)", w ? "a write" : "a read", fname(cur).c_str(), o.write ? "a write" : "a read", fname(o.f).c_str(), pc, o.pc); (void)a;
    fail(b);
}
static void access(const void* p, size_t n, bool w, const void* pc)
{
    if (!active || quiet || !n) return;
    uintptr_t a = (uintptr_t)p;
    if (a >= tlslo && a < tlshi) return; // thread_local
    uintptr_t end = a + n;
    while (a < end) {
        uintptr_t g = a >> 3; unsigned off = a & 7, len = 8 - off; if (len > end - a) len = end - a;
        uint8_t mask = ((1u << len) - 1) << off;
        Cell* c = shadow().find(g, true);
        if (c->freed & mask) { char b[200]; snprintf(b, sizeof b, "use of freed memory by %s (code at %p)", fname(cur).c_str(), pc); fail(b); }
        int slot = -1;
        for (int i = 0; i < c->n; ++i) {
            Acc& o = c->a[i];
            if (!(o.mask & mask)) continue;
            if (o.f == cur) { if (o.write == w && o.mask == mask) slot = i; continue; }
            if ((o.write || w) && o.clk > F[cur].vc[o.f]) race(a, o, w, pc);
        }
        if (slot < 0) { // drop what is ordered before this access and covered by it
            for (int i = 0; i < c->n; ++i) { Acc& o = c->a[i]; if ((w || !o.write) && (o.mask & ~mask) == 0 && (o.f == cur || (w && o.clk <= F[cur].vc[o.f]))) { slot = i; break; } }
        }
        if (slot < 0) { if (c->n < 14) slot = c->n++; else slot = (int)(steps % 14); }
        c->a[slot] = Acc{(uint8_t)cur, mask, (uint8_t)w, F[cur].vc[cur], pc};
        a += len;
    }
}
static void forget(const void* p, size_t n) // fresh memory
{
    uintptr_t a = (uintptr_t)p, end = a + n;
    while (a < end) { Cell* c = shadow().find(a >> 3, false); if (c) { c->n = 0; c->freed = 0; } a = (a | 7) + 1; }
}
static void mark_freed(const void* p, size_t n, const void* pc)
{
    access(p, n, true, pc);
    uintptr_t a = (uintptr_t)p, end = a + n;
    while (a < end) { unsigned off = a & 7, len = 8 - off; if (len > end - a) len = end - a; Cell* c = shadow().find(a >> 3, true); c->freed |= ((1u << len) - 1) << off; a += len; }
}
static void* alloc(size_t n) { size_t* p = (size_t*)malloc(n + 16); if (!p) return nullptr; p[0] = n; p[1] = active && !quiet ? gen : 0; if (active) forget(p, n + 16); return p + 2; }
static void dealloc(void* q, const void* pc)
{
    if (!q) return; size_t* p = (size_t*)q - 2;
    if (active && p[1] == gen) {
        if (quiet) { free(p); return; }
        Cell* c = shadow().find((uintptr_t)q >> 3, false); if (c && c->freed && p[0]) fail("memory freed twice");
        mark_freed(q, p[0] < 65536 ? p[0] : 65536, pc);
        if (nfreed == capfreed) { capfreed = capfreed ? capfreed * 2 : 1024; freed = (Freed*)realloc((void*)freed, capfreed * sizeof(Freed)); }
        freed[nfreed++].p = p;
        return;
    }
    free(p);
}
} // namespace fib
using namespace fib;
#define PC __builtin_return_address(0)

void* operator new(size_t n) { void* p = alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void operator delete(void* p) noexcept { dealloc(p, PC); }
void operator delete[](void* p) noexcept { dealloc(p, PC); }
void operator delete(void* p, size_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, size_t) noexcept { dealloc(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dealloc(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dealloc(p, PC); }

extern "C" void* __cxa_allocate_exception(size_t n) noexcept // fresh memory, not from operator new
{
    static void* (*real)(size_t) noexcept = (void* (*)(size_t) noexcept)dlsym(RTLD_NEXT, "__cxa_allocate_exception");
    void* p = real(n); if (active) forget(p, n); return p;
}

// ------------------------------------------------ compiler instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { access(d, n, true, PC); return memset(d, v, n); }
}
static bool live() { return active && !quiet; }
static void freed_check(const void* p, const void* pc) { Cell* c = shadow().find((uintptr_t)p >> 3, false); if (c && (c->freed >> ((uintptr_t)p & 7) & 1)) { char b[200]; snprintf(b, sizeof b, "use of freed memory by T%d (code at %p)", cur, pc); fail(b); } }
// atomics: memory order as given (acquire joins, release publishes)
static void at_begin(const void* p, const char* what, const void* pc) { freed_check(p, pc); if (at_points) wait_for(nullptr, nullptr, what, p); }
static void at_sync(const void* p, int mo, bool ld, bool st) { Sync& s = sync_of(p); if (ld && mo != 0 && mo != 3) acquire(s); if (st) { if (mo >= 3) release(s); else { /* a relaxed store starts no new release sequence */ } } }
template <class T> static T at_load(volatile T* p, int mo, const void* pc) { if (!live()) return *p; at_begin((void*)p, "atomic load", pc); at_sync((void*)p, mo, true, false); return *p; }
template <class T> static void at_store(volatile T* p, T v, int mo, const void* pc) { if (!live()) { *p = v; return; } at_begin((void*)p, "atomic store", pc); at_sync((void*)p, mo, false, true); *p = v; }
template <class T, class Fn> static T at_rmw(volatile T* p, int mo, const void* pc, const char* what, Fn f) { if (!live()) { T o = *p; *p = f(o); return o; } at_begin((void*)p, what, pc); at_sync((void*)p, mo, true, true); T o = *p; *p = f(o); return o; }
template <class T> static bool at_cas(volatile T* p, T* e, T v, int mo, const void* pc) { if (!live()) { if (*p == *e) { *p = v; return true; } *e = *p; return false; } at_begin((void*)p, "atomic compare-exchange", pc); bool ok = *p == *e; at_sync((void*)p, mo, true, ok); if (ok) *p = v; else *e = *p; return ok; }
extern "C" {
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T* p, int mo) { return at_load((volatile T*)p, mo, PC); } \
void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { at_store(p, v, mo, PC); } \
T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return at_rmw(p, mo, PC, "atomic exchange", [=](T) { return v; }); } \
T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return at_rmw(p, mo, PC, "atomic add", [=](T o) { return (T)(o + v); }); } \
T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return at_rmw(p, mo, PC, "atomic sub", [=](T o) { return (T)(o - v); }); } \
T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return at_rmw(p, mo, PC, "atomic and", [=](T o) { return (T)(o & v); }); } \
T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return at_rmw(p, mo, PC, "atomic or", [=](T o) { return (T)(o | v); }); } \
T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return at_rmw(p, mo, PC, "atomic xor", [=](T o) { return (T)(o ^ v); }); } \
T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return at_rmw(p, mo, PC, "atomic nand", [=](T o) { return (T)~(o & v); }); } \
bool __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { return at_cas(p, e, v, mo, PC); } \
bool __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { return at_cas(p, e, v, mo, PC); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { at_cas(p, &e, v, mo, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (!live()) return; static char fence; Sync& s = sync_of(&fence); acquire(s); release(s); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------ threads
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (!active) { fprintf(stderr, "fib: thread outside of an execution\n"); abort(); }
    wait_for(nullptr, nullptr, "thread start"); if (os::starved()) return EAGAIN;
    int i = nf; uint32_t epoch = 0;
    if (nf >= MAXF) { // the place of a thread that was joined, and whose end is known here: its clock goes on
        for (i = 1; i < nf && !(F[i].state == 2 && F[i].joined && F[cur].vc[i] >= F[i].vc[i]); ) ++i;
        if (i == nf) fail("too many threads for the harness");
        epoch = F[i].vc[i]; --nf;
    }
    setup(i); F[i].vc[i] += epoch; F[i].fn = fn; F[i].fnarg = arg; vjoin(F[i].vc, F[cur].vc); ++F[cur].vc[cur]; ++nf;
    *t = (pthread_t)(i + 1); return 0;
}
static bool r_join(void* p) { return ((Fiber*)p)->state == 2; }
int pthread_join(pthread_t t, void** r) { int i = (int)t - 1; if (i < 0 || i >= nf || F[i].joined || F[i].detached || i == cur) fail("join of a thread that cannot be joined"); wait_for(r_join, &F[i], "join"); F[i].joined = true; vjoin(F[cur].vc, F[i].vc); if (r) *r = F[i].ret; return 0; }
int pthread_detach(pthread_t t) { int i = (int)t - 1; if (i >= 0 && i < nf) F[i].detached = true; return 0; }
pthread_t pthread_self(void) noexcept { return active ? (pthread_t)(cur + 1) : (pthread_t)1000; }
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
static bool r_low(void*) { return true; }
int sched_yield(void) noexcept { if (live()) { F[cur].low = true; wait_for(r_low, nullptr, "yield"); } return 0; }
int nanosleep(const timespec* a, timespec* b) { if (!active) return syscall(SYS_nanosleep, a, b); F[cur].low = true; wait_for(r_low, nullptr, "sleep"); return 0; }
int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) { if (!active) return syscall(SYS_clock_nanosleep, c, f, a, b); F[cur].low = true; wait_for(r_low, nullptr, "sleep"); return 0; }
int usleep(useconds_t u) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }

// ------------------------------------------------ mutexes
static bool r_mutex(void* p) { Sync* s = syncs().find((uintptr_t)p, true); return s->owner < 0 || (!s->id) || (s->kind == 1 && s->owner == cur); }
static void lock_(pthread_mutex_t* m, const char* what)
{
    freed_check(m, PC); Sync& s = sync_of(m); s.kind = m->__data.__kind & 3;
    if (s.kind == 2 && s.owner == cur) return;
    wait_for(r_mutex, m, what, m); Sync& t = sync_of(m); freed_check(m, PC);
    t.owner = cur; ++t.count; ++F[cur].held; acquire(t); access(m, 1, false, PC); // using it while it is constructed or destroyed is a race
}
static void unlock_(pthread_mutex_t* m) { freed_check(m, PC); access(m, 1, false, PC); Sync& s = sync_of(m); if (s.owner != cur) fail("a mutex is unlocked by a thread that does not hold it"); release(s); --F[cur].held; if (--s.count == 0) s.owner = -1; noting("unlock", m); }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept { memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; } if (active) { Sync* s = syncs().find((uintptr_t)m, true); int id = s->id; memset((void*)s, 0, sizeof *s); s->owner = -1; s->id = id ? id : ++ids; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (active) { Sync* s = syncs().find((uintptr_t)m, false); if (s && s->id && s->owner >= 0) fail("a locked mutex is destroyed"); } return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept(false) { if (!live()) return 0; lock_(m, "lock"); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (!live()) return 0; freed_check(m, PC); wait_for(nullptr, nullptr, "trylock", m); if (!r_mutex(m)) return EBUSY; Sync& s = sync_of(m); s.owner = cur; ++s.count; ++F[cur].held; acquire(s); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept(false) { if (!live()) return 0; unlock_(m); return 0; }

// ------------------------------------------------ condition variables: a waiter waits for its ticket
static unsigned tickets[MAXF]; // 0 = woken
static const void* wait_on[MAXF];
static bool r_cond(void* p) { return tickets[(intptr_t)p] == 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    if (!active) { fprintf(stderr, "fib: wait outside of an execution\n"); abort(); }
    freed_check(c, PC); access(c, 1, false, PC); sync_of(c);
    static unsigned next = 0; tickets[cur] = ++next ? next : ++next; wait_on[cur] = c;
    int cnt = sync_of(m).count; { Sync& s = sync_of(m); if (s.owner != cur) fail("a condition is waited for without holding its mutex"); (void)cnt; }
    unlock_(m);
    if (spur > 0 && pick_one(2, "spurious wakeup")) { --spur; tickets[cur] = 0; }
    F[cur].timed = timed;
    wait_for(r_cond, (void*)(intptr_t)cur, timed ? "timed wait" : "wait", c);
    F[cur].timed = false;
    bool woken = tickets[cur] == 0; tickets[cur] = 0; wait_on[cur] = nullptr;
    lock_(m, "relock");
    return woken ? 0 : ETIMEDOUT;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) noexcept { if (live()) { for (int i = 0; i < nf; ++i) if (F[i].state == 1 && wait_on[i] == c && tickets[i]) fail("a condition variable is destroyed while " + fname(i) + " waits for it"); freed_check(c, PC); } return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) { return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec*) { return cond_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) noexcept(false)
{
    if (!live()) return 0; freed_check(c, PC); access(c, 1, false, PC); wait_for(nullptr, nullptr, "notify one", c); freed_check(c, PC);
    int w[MAXF], n = 0; for (int i = 0; i < nf; ++i) if (F[i].state == 1 && wait_on[i] == c && tickets[i]) w[n++] = i;
    if (n) tickets[w[pick_one(n, "who is notified")]] = 0; return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept(false) { if (!live()) return 0; freed_check(c, PC); access(c, 1, false, PC); wait_for(nullptr, nullptr, "notify all", c); freed_check(c, PC); for (int i = 0; i < nf; ++i) if (wait_on[i] == c) tickets[i] = 0; return 0; }
int pthread_condattr_init(pthread_condattr_t*) noexcept { return 0; }
int pthread_condattr_destroy(pthread_condattr_t*) noexcept { return 0; }
int pthread_condattr_setclock(pthread_condattr_t*, clockid_t) noexcept { return 0; }

// ------------------------------------------------ read-write locks, once, thread-specific data
static bool r_rd(void* p) { Sync* s = syncs().find((uintptr_t)p, true); return !s->id || s->owner < 0; }
static bool r_wr(void* p) { Sync* s = syncs().find((uintptr_t)p, true); return !s->id || (s->owner < 0 && !s->readers); }
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { if (!live()) return 0; freed_check(l, PC); sync_of(l); wait_for(r_rd, l, "read lock", l); Sync& s = sync_of(l); ++s.readers; ++F[cur].held; acquire(s); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { if (!live()) return 0; freed_check(l, PC); sync_of(l); wait_for(r_wr, l, "write lock", l); Sync& s = sync_of(l); s.owner = cur; ++F[cur].held; acquire(s); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { if (!live()) return 0; sync_of(l); wait_for(nullptr, nullptr, "try read lock", l); if (!r_rd(l)) return EBUSY; Sync& s = sync_of(l); ++s.readers; ++F[cur].held; acquire(s); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { if (!live()) return 0; sync_of(l); wait_for(nullptr, nullptr, "try write lock", l); if (!r_wr(l)) return EBUSY; Sync& s = sync_of(l); s.owner = cur; ++F[cur].held; acquire(s); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept { if (!live()) return 0; Sync& s = sync_of(l); release(s); --F[cur].held; if (s.owner == cur) s.owner = -1; else --s.readers; return 0; }
static bool r_once(void* p) { return *(volatile int*)p != 1; }
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    if (!active) { if (*o != 2) { *o = 2; f(); } return 0; }
    Dl_info di; if (dladdr(o, &di)) { // in static storage: it is done once in the life of the process, whichever execution comes first, so never a scheduling point
        if (*o != 2) { ++quiet; try { f(); } catch (...) { --quiet; throw; } --quiet; *o = 2; release(sync_of(o)); }
        acquire(sync_of(o)); return 0; }
    wait_for(r_once, o, "once", o); Sync& s = sync_of(o); acquire(s); if (*o == 2) return 0; *o = 1;
    try { f(); } catch (...) { *o = 0; throw; }
    *o = 2; release(sync_of(o)); return 0;
}
// function-local statics are constructed once in the life of the process, whichever execution comes first: never a scheduling point
int __cxa_guard_acquire(long long* g) { char* b = (char*)g; if (b[0]) { if (live()) acquire(sync_of(g)); return 0; } if (active) ++quiet; return 1; }
void __cxa_guard_release(long long* g) { *(volatile char*)g = 1; if (active) { --quiet; if (!quiet) release(sync_of(g)); } }
void __cxa_guard_abort(long long*) { if (active) --quiet; }
int __cxa_thread_atexit(void (*f)(void*), void* o, void* d)
{
    if (active) { if (ndtors[cur] == 64) C->internal("too many thread_local objects"); else dtors[cur][ndtors[cur]++] = Dtor{f, o}; return 0; }
    static int (*real)(void (*)(void*), void*, void*) = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_thread_atexit"); return real(f, o, d);
}
static bool keyused[64]; static void* hosttls[64];
int pthread_key_create(pthread_key_t* k, void (*)(void*)) noexcept { for (int i = 1; i < 64; ++i) if (!keyused[i]) { keyused[i] = true; *k = i; for (auto& f : F) f.tls[i] = nullptr; hosttls[i] = nullptr; return 0; } return EAGAIN; }
int pthread_key_delete(pthread_key_t k) noexcept { if (k < 64) keyused[k] = false; return 0; }
void* pthread_getspecific(pthread_key_t k) noexcept { return k < 64 ? (active ? F[cur].tls[k] : hosttls[k]) : nullptr; }
int pthread_setspecific(pthread_key_t k, const void* v) noexcept { if (k >= 64) return EINVAL; (active ? F[cur].tls[k] : hosttls[k]) = const_cast<void*>(v); return 0; }
}

// ------------------------------------------------ the operating system
namespace fib { namespace os {
struct Fd { int kind; int pipe; bool w; uint64_t val; }; // kind 0 closed, 1 terminal, 2 pipe, 3 event counter
struct Pipe { int n, readers, writers; unsigned char b[PIPE]; uint32_t vc[MAXF]; };
static Fd fd[64]; static Pipe pp[16]; static int npp; static unsigned char in[TYPED]; static int nin, rin; static bool hup, canonical, ttynonblock; static int took[MAXF]; static termios ttymode; static int eintrs, eofs; static int starving; static const int FAR = 1200; static bool far_;
int errors;
static uint32_t invc[MAXF];
void reset() { starving = 0; far_ = false; memset(fd, 0, sizeof fd); for (Pipe& p : pp) { p.n = p.readers = p.writers = 0; memset(p.vc, 0, sizeof p.vc); } npp = nin = rin = 0; hup = canonical = ttynonblock = false; memset(took, 0, sizeof took); termios& tm = ttymode; memset(&tm, 0, sizeof tm); tm.c_iflag = ICRNL | IXON; tm.c_oflag = OPOST | ONLCR; tm.c_cflag = CS8 | CREAD; tm.c_lflag = ICANON | ECHO | ISIG | IEXTEN; tm.c_cc[VMIN] = 1; tm.c_cc[VEOF] = 4; eintrs = eofs = errors = 0; fd[0] = fd[1] = fd[2] = Fd{1, 0, false}; memset(invc, 0, sizeof invc); }
void type(const char* b, int n) { if (nin == rin) nin = rin = 0; if (nin + n > TYPED) C->internal("too much typed for the harness"); for (int i = 0; i < n; ++i) in[nin++] = b[i]; if (cur >= 0) vjoin(invc, F[cur].vc); }
std::string press(const char* b, int n)
{
    std::string echo;
    for (int i = 0; i < n; ++i) {
        char x = b[i]; const tcflag_t m = ttymode.c_iflag; if (m & ISTRIP) x &= 0x7f;
        if (x == '\r') { if (m & IGNCR) continue; if (m & ICRNL) x = '\n'; } else if (x == '\n' && m & INLCR) x = '\r';
        type(&x, 1); if (ttymode.c_lflag & ECHO) { if ((x >= 0 && x < 32 && x != '\n' && x != '\t') || x == 127) { echo += '^'; echo += x ^ 64; } else echo += x; }
    }
    return echo;
}
void hangup() { hup = true; }
int taken_by(int f) { return took[f]; }
int taken() { int n = 0; for (int i = 0; i < MAXF; ++i) n += took[i]; return n; }
int left() { return nin - rin; }
int open_fds() { int n = 0; for (int i = 3; i < 64; ++i) n += fd[i].kind != 0; return n; }
bool nonblocking() { return ttynonblock; }
const termios& mode() { return ttymode; }
void set_mode(const termios& t) { ttymode = t; }
void eintr(int n) { eintrs = n; }
void starve(int n) { starving = n; }
void far_fds(bool b) { far_ = b; }
static int near(int f) { return f >= FAR ? f - FAR : f; }
bool starved() { return starving > 0 && --starving == 0; }
int reads_after_eof() { return eofs; }
bool nonblock_read(char& c) { if (rin == nin) return false; c = in[rin++]; ++took[cur]; return true; }
// with discipline(true), a line is not there before its end in canonical mode (otherwise the terminal is more generous than a real one)
void discipline(bool b) { canonical = b; }
static bool typed_ready() { if (!canonical || !(ttymode.c_lflag & ICANON)) return rin < nin; for (int i = rin; i < nin; ++i) if (in[i] == '\n' || in[i] == ttymode.c_cc[VEOF]) return true; return false; }
static bool ok(int f) { return f >= 0 && f < 64 && fd[f].kind; }
static bool readable(int f) { if (!ok(f)) return true; if (fd[f].kind == 1) return typed_ready() || hup; if (fd[f].kind == 3) return pp[fd[f].pipe].n > 0; Pipe& p = pp[fd[f].pipe]; return fd[f].w ? false : p.n > 0 || !p.writers; }
static bool writable(int f) { if (!ok(f)) return true; if (fd[f].kind != 2) return true; Pipe& p = pp[fd[f].pipe]; return fd[f].w && (p.n < PIPE || !p.readers); }
static bool intr() { if (eintrs > 0 && pick_one(2, "interrupted system call")) { --eintrs; noting("-- interrupted", nullptr); errno = EINTR; return true; } return false; }
static void hb(int f) { if (!ok(f)) return; if (fd[f].kind == 1) vjoin(F[cur].vc, invc); else vjoin(F[cur].vc, pp[fd[f].pipe].vc); }
static int newpipe() { for (int i = 0; i < npp; ++i) if (!pp[i].readers && !pp[i].writers) { pp[i].n = 0; memset(pp[i].vc, 0, sizeof pp[i].vc); return i; } if (npp >= 16) fail("too many pipes for the harness"); return npp++; }
static int newfd(Fd x) { for (int i = 3; i < 64; ++i) if (!fd[i].kind) { fd[i] = x; return far_ ? i + FAR : i; } errno = EMFILE; return -1; }
}}
using namespace fib::os;
extern "C" {
int pipe2(int* p, int) noexcept
{
    if (!live()) return syscall(SYS_pipe2, p, 0);
    wait_for(nullptr, nullptr, "pipe"); if (starved()) { errno = EMFILE; return -1; } int k = newpipe(); pp[k].readers = pp[k].writers = 1; p[0] = newfd(Fd{2, k, false}); p[1] = newfd(Fd{2, k, true}); access(p, 8, true, PC); return 0;
}
int pipe(int* p) noexcept { return pipe2(p, 0); }
int close(int f)
{
    if (!live()) return syscall(SYS_close, f);
    f = near(f);    wait_for(nullptr, nullptr, "close"); if (!ok(f)) { ++errors; errno = EBADF; return -1; }
    if (fd[f].kind == 2) { (fd[f].w ? pp[fd[f].pipe].writers : pp[fd[f].pipe].readers)--; vjoin(pp[fd[f].pipe].vc, F[cur].vc); ++F[cur].vc[cur]; } else if (fd[f].kind == 3) pp[fd[f].pipe].readers = pp[fd[f].pipe].writers = 0; fd[f].kind = 0; return 0;
}
static bool r_read(void* p) { return readable((int)(intptr_t)p); }
ssize_t read(int f, void* b, size_t n)
{
    if (!live()) return syscall(SYS_read, f, b, n);
    f = near(f);    if (ok(f) && intr()) { point("read"); errno = EINTR; return -1; }
    if (ok(f) && fd[f].kind == 1 && ttynonblock && !readable(f)) { point("read"); errno = EAGAIN; return -1; }
    wait_for(r_read, (void*)(intptr_t)f, "read"); if (!ok(f)) { ++errors; errno = EBADF; return -1; } hb(f);
    size_t k = 0; unsigned char* q = (unsigned char*)b;
    if (fd[f].kind == 1) { while (k < n && rin < nin) { q[k++] = in[rin++]; ++took[cur]; } if (!k) ++eofs; }
    else if (fd[f].kind == 3) { if (n < 8) { errno = EINVAL; return -1; } uint64_t v = pp[fd[f].pipe].n; pp[fd[f].pipe].n = 0; memcpy(b, &v, 8); k = 8; }
    else { Pipe& p = pp[fd[f].pipe]; while (k < n && p.n) { q[k++] = p.b[0]; memmove(p.b, p.b + 1, --p.n); } }
    if (k) access(b, k, true, PC); return k;
}
static bool r_write(void* p) { return writable((int)(intptr_t)p); }
ssize_t write(int f, const void* b, size_t n)
{
    if (!live()) return syscall(SYS_write, f, b, n);
    f = near(f);    wait_for(r_write, (void*)(intptr_t)f, "write"); if (!ok(f) || (fd[f].kind == 2 && !fd[f].w)) { ++errors; errno = EBADF; return -1; }
    if (fd[f].kind == 3) { Pipe& e = pp[fd[f].pipe]; e.n += 1; vjoin(e.vc, F[cur].vc); ++F[cur].vc[cur]; return 8; }
    if (fd[f].kind == 1) return n; Pipe& p = pp[fd[f].pipe]; if (!p.readers) fail("write into a pipe nobody reads (the process would be killed by SIGPIPE)"); size_t k = 0; while (k < n && p.n < PIPE) p.b[p.n++] = ((const unsigned char*)b)[k++]; vjoin(p.vc, F[cur].vc); ++F[cur].vc[cur]; return k;
}
struct Sel { int n; fd_set *r, *w; };
static bool r_sel(void* a) { Sel* s = (Sel*)a; for (int i = 0; i < s->n; ++i) if ((s->r && FD_ISSET(i, s->r) && readable(i)) || (s->w && FD_ISSET(i, s->w) && writable(i))) return true; return false; }
static int select_(int n, fd_set* r, fd_set* w, fd_set* e, bool timed, bool zero)
{
    if (n > FD_SETSIZE) fail("select() is given a descriptor beyond FD_SETSIZE: the sets of descriptors are overrun");
    if (n < 0) { errno = EINVAL; return -1; }
    if (!zero && intr()) { point("select"); errno = EINTR; return -1; }
    Sel s{n > 64 ? 64 : n, r, w};
    if (zero) wait_for(nullptr, nullptr, "select(0)"); else { F[cur].timed = timed; wait_for(r_sel, &s, "select"); F[cur].timed = false; }
    int k = 0; for (int i = 0; i < s.n; ++i) { bool in_ = (r && FD_ISSET(i, r)), out_ = (w && FD_ISSET(i, w)); if ((in_ || out_) && !ok(i)) { ++errors; errno = EBADF; return -1; } }
    for (int i = 0; i < s.n; ++i) { if (r && FD_ISSET(i, r)) { if (readable(i)) { ++k; hb(i); } else FD_CLR(i, r); } if (w && FD_ISSET(i, w)) { if (writable(i)) ++k; else FD_CLR(i, w); } }
    if (e) FD_ZERO(e); return k;
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t) { if (!live()) return syscall(SYS_select, n, r, w, e, t); return select_(n, r, w, e, t != nullptr, t && !t->tv_sec && !t->tv_usec); }
int pselect(int n, fd_set* r, fd_set* w, fd_set* e, const timespec* t, const sigset_t*) { if (!live()) return -1; return select_(n, r, w, e, t != nullptr, t && !t->tv_sec && !t->tv_nsec); }
struct Pol { pollfd* p; nfds_t n; };
static bool pol1(pollfd& p) { int f = near(p.fd); if (f < 0) { p.revents = 0; return false; } if (!ok(f)) { p.revents = POLLNVAL; return true; } short v = 0; if ((p.events & POLLIN) && readable(f)) v |= POLLIN; if ((p.events & POLLOUT) && writable(f)) v |= POLLOUT; if (fd[f].kind == 2 && !fd[f].w && !pp[fd[f].pipe].writers) v |= POLLHUP; p.revents = v; return v != 0; }
static bool r_pol(void* a) { Pol* q = (Pol*)a; bool r = false; for (nfds_t i = 0; i < q->n; ++i) r |= pol1(q->p[i]); return r; }
int poll(pollfd* p, nfds_t n, int t)
{
    if (!live()) return syscall(SYS_poll, p, n, t);
    if (t && intr()) { point("poll"); errno = EINTR; return -1; }
    Pol q{p, n}; if (t == 0) wait_for(nullptr, nullptr, "poll(0)"); else { F[cur].timed = t > 0; wait_for(r_pol, &q, "poll"); F[cur].timed = false; }
    int k = 0; for (nfds_t i = 0; i < n; ++i) if (pol1(p[i])) { ++k; hb(near(p[i].fd)); } return k;
}
int ppoll(pollfd* p, nfds_t n, const timespec* t, const sigset_t*) { if (!live()) return -1; return poll(p, n, !t ? -1 : t->tv_sec || t->tv_nsec ? 1000 : 0); }
int tcgetattr(int f, termios* t) noexcept { if (!live()) return -1; wait_for(nullptr, nullptr, "tcgetattr"); if (!ok(f) || fd[f].kind != 1) { errno = ENOTTY; return -1; } access(t, sizeof *t, true, PC); *t = ttymode; return 0; }
int tcsetattr(int f, int how, const termios* t) noexcept { if (!live()) return -1; wait_for(nullptr, nullptr, "tcsetattr"); if (!ok(f) || fd[f].kind != 1) { errno = ENOTTY; return -1; } access(t, sizeof *t, false, PC); ttymode = *t; if (how == TCSAFLUSH) nin = rin = 0; return 0; }
int tcflush(int f, int q) noexcept { if (!live()) return -1; wait_for(nullptr, nullptr, "tcflush"); if (!ok(f) || fd[f].kind != 1) { errno = ENOTTY; return -1; } if (q != TCOFLUSH) nin = rin = 0; return 0; }
static int fcntl_(int f, int cmd, long x) { f = near(f); if (!ok(f)) { errno = EBADF; return -1; } if (fd[f].kind != 1) return 0; wait_for(nullptr, nullptr, "fcntl"); if (cmd == F_GETFL) return O_RDWR | (ttynonblock ? O_NONBLOCK : 0); if (cmd == F_SETFL) ttynonblock = x & O_NONBLOCK; return 0; }
int fcntl(int f, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); if (!live()) return syscall(SYS_fcntl, f, cmd, x); return fcntl_(f, cmd, x); }
int fcntl64(int f, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); if (!live()) return syscall(SYS_fcntl, f, cmd, x); return fcntl_(f, cmd, x); }
int isatty(int f) noexcept { if (!live()) { termios t; return syscall(SYS_ioctl, f, TCGETS, &t) == 0; } return ok(f) && fd[f].kind == 1; }
int eventfd(unsigned v, int) { if (!live()) return syscall(SYS_eventfd2, v, 0); wait_for(nullptr, nullptr, "eventfd"); if (starved()) { errno = EMFILE; return -1; } int k = newpipe(); pp[k].n = v; pp[k].readers = pp[k].writers = 1; return newfd(Fd{3, k, true}); }
}
