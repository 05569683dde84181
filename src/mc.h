// Stateless bounded model checker: enumerates every sequence of answers to Ctx::choose().
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

class Ctx {
public:
    virtual ~Ctx() = default;
    // Nondeterministic choice in [0,n). n<=1 is not a choice point. 'what' is only for the trace.
    virtual unsigned choose(unsigned n, const char* what = "") = 0;
    // Records a violation (the first one counts). The body should return soon afterwards.
    [[noreturn]] virtual void internal(const std::string& msg) = 0;  // a limit of the harness: neither held nor violated
    virtual void fail(const std::string& msg) = 0;
    virtual bool failed() const = 0;
    // Coverage bookkeeping.
    virtual void state(uint64_t h) = 0;       // a distinct state/observation
    virtual void step(uint64_t n = 1) = 0;    // transitions performed
    virtual void outcome(uint64_t h) = 0;     // distinct final outcome of an execution
    // Abandon this execution as redundant (not counted as a complete one).
    virtual void prune() = 0;
    virtual void notes_raw(const std::string& s) = 0;
    virtual bool noting() const = 0;
    virtual int bound() const = 0;
    void note(const std::string& s) { if (noting()) notes_raw(s); }
    bool check(bool ok, const std::string& msg) { if (!ok) fail(msg); return ok; }
};

struct Model {
    const char* property;
    const char* name;
    const char* what;           // what is enumerated, for the evidence
    std::vector<int> quick;     // bounds to run, increasing
    std::vector<int> thorough;
    std::function<void(Ctx&)> body;
    double hang_s = 30;         // one execution longer than this is a hang
};

// Registers a model (static initialisers)
struct Reg { Reg(Model m); };

// helpers
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
inline uint64_t hs(const std::string& s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return mix(h, s.size()); }
std::string show(const std::string& s);  // printable, quoted
template <class V> std::string showv(const V& v) { std::string r = "["; bool f = true; for (auto& x : v) { if (!f) r += ", "; f = false; r += show(x); } return r + "]"; }

// sizes around the powers of two and the round numbers: 0 small ones, 1 large ones
inline const std::vector<unsigned>& sizes(int large)
{
    static const std::vector<unsigned> q = {7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025}, t = {300, 400, 499, 501, 999, 2047, 2048, 2049};
    return large ? t : q;
}
inline unsigned size_choice(Ctx& c) { auto& v = sizes(c.bound()); return v[c.choose(v.size(), "size")]; }

int run(int argc, char** argv);
// Called by the explorer in every worker before the first execution
extern std::function<void()> worker_init;

// Assumptions listed in the evidence file of a property
struct Assume { Assume(const char* property, const char* text); };

} // namespace mc
