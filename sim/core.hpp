// Deterministic simulation core: PRNG, plans, event log, fault seams (memory,
// logical clock, thread schedule) and the runner. See DESIGN.md.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace sim {
typedef uint64_t u64;

// ---- PRNG: the only source of randomness; one seed decides everything
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next() { // splitmix64
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); } // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    // small numbers more often, up to hi
    u64 loguniform(u64 hi) { unsigned bits = 1; while ((1ull << bits) <= hi && bits < 62) ++bits;
        u64 m = 1ull << below(bits + 1); return below(m < hi + 1 ? m : hi + 1); }
};
inline u64 mix(u64 a, u64 b) { Rng r(a * 0x9E3779B97F4A7C15ull + b); r.next(); return r.next() ^ b; }
u64 hash_str(const std::string&);

// ---- plans: what a run does. Any subset of lines must be executable.
struct Line {
    std::string op;
    std::vector<std::string> a;
    const std::string& arg(size_t i) const { static const std::string e; return i < a.size() ? a[i] : e; }
    long num(size_t i, long def = 0) const;
};
struct Plan {
    std::vector<Line> lines;
    void add(const std::string& op, std::vector<std::string> a = {}) { Line l; l.op = op; l.a = std::move(a); lines.push_back(l); }
    const Line* find(const std::string& op) const { for (auto& l : lines) if (l.op == op) return &l; return 0; }
    bool has(const std::string& op) const { return find(op) != 0; }
    long num(const std::string& op, long def = 0) const { const Line* l = find(op); return l ? l->num(0, def) : def; }
    std::string str() const;
    static bool parse(const std::string& text, Plan& out);
};
std::string N(long long v);
std::string esc(const std::string&);     // printable
std::string hex(u64);

// ---- event log, statistics, verdicts (all allocation-free while the library runs)
void ev(const std::string& text);                   // appended to the event log (hashed)
void tally(const char* name, u64 n = 1);             // counters for the evidence
void state(u64 h);                                  // an abstract state reached
void nontrivial();                                  // this run exercised the property
[[noreturn]] void violate(const std::string& cls, const std::string& detail);
[[noreturn]] void harness_error(const std::string& detail);
void known_or_violate(const std::string& cls, const std::string& sig, const std::string& detail);

// ---- memory and logical clock. Active only inside lib().
struct Mem {
    u64 count;        // allocations made by the library so far
    u64 fail_at;      // index of first failing allocation (~0: none)
    u64 fail_n;       // how many fail from there (0: all)
    size_t fail_min;  // only allocations of at least this size count
    u64 failed;       // injected failures so far
    u64 live, live_bytes, peak_bytes, cap_bytes;
};
extern Mem mem;
extern u64 steps, step_limit;
extern size_t deepest, stack_limit; // stack used by the library below the outermost call of it
struct TL { int lib; int tid; char* base; };
extern thread_local TL tl;
struct LibScope { char* was; LibScope() : was(tl.base) { if (!tl.lib++) tl.base = (char*)__builtin_frame_address(0); } ~LibScope() { --tl.lib; tl.base = was; } };
// inside a callback from the library: harness code, not under fault injection
struct Pause { int s; Pause() : s(tl.lib) { tl.lib = 0; } ~Pause() { tl.lib = s; } };
template<class F> auto lib(F f) -> decltype(f()) { LibScope s; return f(); }
struct Oom { // injects allocation failures for its lifetime
    Oom(u64 k, u64 n, size_t mn = 0) { mem.count = 0; mem.fail_at = k; mem.fail_n = n; mem.fail_min = mn; mem.failed = 0; }
    ~Oom() { off(); }
    void off() { mem.fail_at = ~0ull; }
};

// ---- seeded thread scheduler: real threads, one runs at a time, switched at
// basic blocks of library code according to the plan
struct Switch { u64 quantum; int target; };
void run_threads(const std::vector<std::function<void()> >& bodies, const std::vector<Switch>& sw);
u64 switches_done();
u64 switches_inside();  // switches which interrupted an operation
void mark(int m);      // what the calling thread is doing (coverage of interrupted pairs)

// ---- property binding
struct Property {
    const char* id;
    Plan (*generate)(Rng&, int tier);
    void (*execute)(const Plan&);
};
extern const Property PROPERTY;

template<class F> struct AtExit { F f; AtExit(F f) : f(f) {} ~AtExit() { f(); } };
} // namespace sim
#endif
