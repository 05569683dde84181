// Controlled scheduler: the threads of the code under test run as fibers of one OS thread; every lock, condition, thread,
// atomic and system-call operation is a scheduling point decided by the explorer. Races (vector clocks over the compiler's
// -fsanitize=thread instrumentation), uses of freed memory, deadlocks and endless loops are reported.
#pragma once
#include "mc.h"
#include <termios.h>

namespace fib {
// Runs body(arg) as the first fiber with at most 'preemptions' preemptive switches; returns when all fibers have ended
void run(mc::Ctx& c, int preemptions, void (*body)(void*), void* arg);
template <class F> void go(mc::Ctx& c, int preemptions, F f) { run(c, preemptions, [](void* p) { (*static_cast<F*>(p))(); }, &f); }
int self();                       // number of the running fiber (0 = the first)
[[noreturn]] void fail(const std::string& m);
void name(const char* n);         // names the running fiber (for the trace)
void point(const char* what);     // a scheduling point of the harness
void block(bool (*ready)(void*), void* arg, const char* what);    // until ready
template <class F> void until(F f, const char* what) { block([](void* p) { return (*static_cast<F*>(p))(); }, &f, what); }
void idle();                      // waits until every other thread waits (or has ended)
void max_steps(unsigned n);       // an execution with more operations than this (20000) does not end
int held();                       // mutexes held by the running fiber
int alive();                      // fibers that have not ended
void spurious(int n);             // up to n spurious wakeups of condition waits
void atomics(bool points);        // whether atomic operations are scheduling points
// harness bookkeeping: memory accesses are not judged
struct Quiet { int old; Quiet(); ~Quiet(); };
struct Loud { int old; Loud(); ~Loud(); };  // judged again, inside a Quiet

// the model of the operating system: descriptor 0 is a terminal
namespace os {
void reset();
void type(const char* b, int n);  // the user types
std::string press(const char* b, int n);  // the user presses keys: through the line discipline; returns the echo
void discipline(bool b);           // canonical mode holds lines back until they are complete
void hangup();                    // end of input: reads return 0
int taken_by(int fiber);          // bytes of terminal input read by a fiber
int taken();                      // ... by all
int left();                       // bytes typed and not read
int open_fds();                   // descriptors open, besides 0..2
const termios& mode();
bool nonblocking();               // the terminal has been made non-blocking
void set_mode(const termios& t);
void eintr(int n);                // up to n interrupted system calls
void far_fds(bool b);            // new descriptors get numbers beyond FD_SETSIZE
void starve(int n);               // the n-th pipe, event descriptor or thread to be made cannot be made
bool starved();
int reads_after_eof();            // reads that returned 0
bool nonblock_read(char& c);      // read by the harness (a command): false if nothing is there
extern int errors;                // operations on descriptors that are not open
}
}
