#include "core.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <set>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define SIM_ASAN 1
#endif
#endif

namespace sim {

// =====================================================================  misc
std::string N(long long v) { char b[32]; snprintf(b, sizeof b, "%lld", v); return b; }
std::string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }
static u64 fnv(u64 h, const char* p, size_t n) { for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } return h; }
u64 hash_str(const std::string& s) { return fnv(1469598103934665603ull, s.data(), s.size()); }
std::string esc(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = (unsigned char)s[i];
        if (c == '\\') r += "\\\\";
        else if (c == '\t') r += "\\t";
        else if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
static std::string unesc(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; }
        char c = s[++i];
        if (c == 't') r += '\t';
        else if (c == 'n') r += '\n';
        else if (c == 'r') r += '\r';
        else if (c == 'x' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
        else r += c;
    }
    return r;
}
long Line::num(size_t i, long def) const { if (i >= a.size() || a[i].empty()) return def; return strtol(a[i].c_str(), 0, 10); }
std::string Plan::str() const {
    std::string r;
    for (auto& l : lines) { r += l.op; for (auto& x : l.a) { r += '\t'; r += esc(x); } r += '\n'; }
    return r;
}
bool Plan::parse(const std::string& text, Plan& out) {
    out.lines.clear();
    size_t i = 0;
    while (i < text.size()) {
        size_t e = text.find('\n', i);
        if (e == std::string::npos) e = text.size();
        std::string ln = text.substr(i, e - i);
        i = e + 1;
        if (ln.empty() || ln[0] == '#') continue;
        Line l;
        size_t p = 0; bool first = true;
        for (;;) {
            size_t t = ln.find('\t', p);
            std::string f = ln.substr(p, t == std::string::npos ? t : t - p);
            if (first) l.op = f; else l.a.push_back(unesc(f));
            first = false;
            if (t == std::string::npos) break;
            p = t + 1;
        }
        out.lines.push_back(l);
    }
    return true;
}

// ==============================================  shared result of one run
static const int MAXSTAT = 160, MAXSTATE = 256, MAXEDGE = 1 << 16;
struct Shm {
    int status;              // 0 running, 1 ok, 2 violation, 3 harness error
    char cls[160];
    char detail[6000];
    u64 hash, events, steps, edges_total, deepest;
    int nontrivial;
    int nstat; struct { char name[56]; u64 v; } st[MAXSTAT];
    int nstate; u64 states[MAXSTATE];
    unsigned char edge[MAXEDGE];
};
static Shm* shm;
static int log_fd = -1;

void ev(const std::string& t) {
    shm->hash = fnv(shm->hash, t.data(), t.size());
    shm->hash = fnv(shm->hash, "\n", 1);
    ++shm->events;
    if (log_fd >= 0) { std::string x = t; x += '\n'; ssize_t r = write(log_fd, x.data(), x.size()); (void)r; }
}
void tally(const char* name, u64 n) {
    for (int i = 0; i < shm->nstat; ++i) if (!strcmp(shm->st[i].name, name)) { shm->st[i].v += n; return; }
    if (shm->nstat < MAXSTAT) { strncpy(shm->st[shm->nstat].name, name, 55); shm->st[shm->nstat].v = n; ++shm->nstat; }
}
void state(u64 h) {
    for (int i = 0; i < shm->nstate; ++i) if (shm->states[i] == h) return;
    if (shm->nstate < MAXSTATE) shm->states[shm->nstate++] = h;
}
void nontrivial() { shm->nontrivial = 1; }
static void finish(int status) {
    shm->status = status; shm->steps = steps; shm->deepest = deepest;
    if (log_fd >= 0) fsync(log_fd);
    _exit(0);
}
static void put(const char* cls, size_t cn, const char* d, size_t dn) {
    if (cn >= sizeof shm->cls) cn = sizeof shm->cls - 1;
    if (dn >= sizeof shm->detail) dn = sizeof shm->detail - 1;
    memcpy(shm->cls, cls, cn); shm->cls[cn] = 0;
    memcpy(shm->detail, d, dn); shm->detail[dn] = 0;
}
void violate(const std::string& cls, const std::string& detail) {
    tl.lib = 0;
    std::string d = esc(detail);
    ev("VIOLATION " + cls + ": " + d);
    put(cls.data(), cls.size(), d.data(), d.size());
    finish(2);
    abort();
}
void harness_error(const std::string& detail) {
    tl.lib = 0;
    ev("HARNESS ERROR " + detail);
    put("harness", 7, detail.data(), detail.size());
    finish(3);
    abort();
}
static std::string known_sigs;
void known_or_violate(const std::string& cls, const std::string& sig, const std::string& detail) {
    std::string l = "," + known_sigs + ","; // the runs script the environment, so it was read at the start
    if (l.find("," + sig + ",") == std::string::npos) violate(cls, detail);
    ev("known finding " + sig);
    tally(("known." + sig).c_str());
}
static void raw_violation(const char* cls) { // from inside allocator / coverage callback
    tl.lib = 0;
    put(cls, strlen(cls), cls, strlen(cls));
    shm->hash = fnv(shm->hash, cls, strlen(cls));
    finish(2);
}

// =====================================================================  memory
Mem mem = { 0, ~0ull, 1, 0, 0, 0, 0, 0, 512ull << 20 };
u64 steps, step_limit = 30000000;
size_t deepest, stack_limit = ~(size_t)0;
thread_local TL tl = { 0, -1, 0 };

struct Hdr { size_t size; size_t flag; };
static const size_t LIVE = 0x51D0A110CA7ED000ull;
static void* do_new(size_t n, bool nothrow) {
    bool counted = tl.lib > 0;
    if (counted) {
        if (n >= mem.fail_min) {
            u64 k = mem.count++;
            if (k >= mem.fail_at && (mem.fail_n == 0 || k < mem.fail_at + mem.fail_n)) {
                ++mem.failed;
                if (nothrow) return 0;
                throw std::bad_alloc();
            }
        }
        if (mem.live_bytes + n > mem.cap_bytes) raw_violation("runaway-memory");
    }
    Hdr* h = (Hdr*)malloc(n + sizeof(Hdr));
    if (!h) { if (nothrow) return 0; throw std::bad_alloc(); }
    h->size = n; h->flag = LIVE | (counted ? 1 : 0);
    if (counted) { ++mem.live; mem.live_bytes += n; if (mem.live_bytes > mem.peak_bytes) mem.peak_bytes = mem.live_bytes; }
#ifdef SIM_ASAN
    ASAN_POISON_MEMORY_REGION(h, sizeof(Hdr));
#endif
    return h + 1;
}
static void do_delete(void* p) {
    if (!p) return;
    Hdr* h = (Hdr*)p - 1;
#ifdef SIM_ASAN
    if (__asan_address_is_poisoned(h) == 0) { free(p); return; } // lets ASan report it
    ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Hdr));
#endif
    if ((h->flag & ~1ull) != LIVE) raw_violation("bad-free");
    if (h->flag & 1) { --mem.live; mem.live_bytes -= h->size; }
    h->flag = 0;
    free(h);
}

// =====================================================================  scheduler
// Hand-over flag. Raw system calls on purpose: the order the scheduler imposes must not look
// like synchronisation of the program itself (the race detecting build relies on that).
struct Gate { int v; Gate() : v(0) {}
    void open() { __atomic_store_n(&v, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, &v, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); }
    void pass() { while (!__atomic_exchange_n(&v, 0, __ATOMIC_SEQ_CST)) syscall(SYS_futex, &v, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0); } };
struct Thr { Gate sem; bool done; bool blocked; };
static struct Sched {
    bool on;
    int cur;
    std::vector<Thr*> t;
    std::vector<Switch> sw;
    size_t pos;
    u64 quantum;
    u64 switched;
    Gate main_sem;
} sched;
static int marks[16]; static u64 inside;
void mark(int m) { if (tl.tid >= 0) marks[tl.tid & 15] = m; }
u64 switches_inside() { return inside; }
u64 switches_done() { return sched.switched; }

static int pick_next(int want) { // first runnable from want on
    int n = (int)sched.t.size();
    for (int i = 0; i < n; ++i) { int k = (want + i) % n; if (!sched.t[k]->done && !sched.t[k]->blocked) return k; }
    for (int i = 0; i < n; ++i) { int k = (want + i) % n; if (!sched.t[k]->done) return k; }
    return -1;
}
static int plan_next() {
    if (sched.pos < sched.sw.size()) {
        Switch s = sched.sw[sched.pos++];
        sched.quantum = s.quantum ? s.quantum : 1;
        return s.target % (int)sched.t.size();
    }
    sched.quantum = ~0ull;
    return sched.cur;
}
static void hand_over(int next) { // from running sim thread to next; returns when scheduled again
    int me = sched.cur;
    if (next == me) return;
    ++sched.switched;
    sched.cur = next;
    if (tl.lib > 0) { ++inside; int k = tl.lib; tl.lib = 0; state(mix(77, mix((u64)marks[me & 15] * 64 + (u64)marks[next & 15], 0))); tl.lib = k; }
    sched.t[next]->sem.open();
    sched.t[me]->sem.pass();
}
static void sched_yield_point() {
    if (--sched.quantum != 0) return;
    int want = plan_next();
    hand_over(pick_next(want));
}
static void sched_block() { // current thread cannot proceed: let another run
    int me = sched.cur;
    sched.t[me]->blocked = true;
    bool other = false;
    for (auto* t : sched.t) if (!t->done && !t->blocked) other = true;
    if (!other) {
        // everybody waits: let each retry in turn; a full fruitless round is a deadlock
        static u64 rounds; if (++rounds > 10000) raw_violation("deadlock");
    }
    hand_over(pick_next((me + 1) % (int)sched.t.size()));
    sched.t[me]->blocked = false;
}
static bool in_sim_thread() { return sched.on && tl.tid >= 0; }

struct Boot { int id; const std::function<void()>* f; };
static void* boot(void* p) {
    Boot b = *(Boot*)p;
    sched.t[b.id]->sem.pass();
    tl.tid = b.id; tl.lib = 0;
    (*b.f)();
    tl.tid = -1;
    sched.t[b.id]->done = true;
    for (auto* t : sched.t) t->blocked = false;
    int n = pick_next((b.id + 1) % (int)sched.t.size());
    if (n < 0) sched.main_sem.open();
    else { ++sched.switched; sched.cur = n; sched.t[n]->sem.open(); }
    return 0;
}
void run_threads(const std::vector<std::function<void()> >& bodies, const std::vector<Switch>& sw) {
    sched.t.clear(); sched.sw = sw; sched.pos = 0; sched.switched = 0; inside = 0; memset(marks, 0, sizeof marks);
    std::vector<Boot> bs(bodies.size());
    std::vector<pthread_t> th(bodies.size());
    for (size_t i = 0; i < bodies.size(); ++i) { Thr* t = new Thr; t->done = t->blocked = false; sched.t.push_back(t); }
    sched.cur = 0;
    for (size_t i = 0; i < bodies.size(); ++i) {
        bs[i].id = (int)i; bs[i].f = &bodies[i];
        if (pthread_create(&th[i], 0, boot, &bs[i])) harness_error("pthread_create");
    }
    sched.on = true;
    int first = plan_next();
    sched.cur = first;
    sched.t[first]->sem.open();
    sched.main_sem.pass();
    sched.on = false;
    for (size_t i = 0; i < bodies.size(); ++i) pthread_join(th[i], 0);
}
} // namespace sim

using namespace sim;
void* operator new(size_t n) { return do_new(n, false); }
void* operator new[](size_t n) { return do_new(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return do_new(n, true); } catch (...) { return 0; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return do_new(n, true); } catch (...) { return 0; } }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }

// -------- logical clock: one tick per basic block of instrumented code
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
    static uint32_t n;
    for (uint32_t* p = a; p < b; ++p) if (!*p) *p = ++n;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (tl.lib <= 0 || !shm) return;
    uint32_t e = *g;
    if (e < MAXEDGE) shm->edge[e] = 1;
    if (++steps > step_limit) raw_violation("hang");
    size_t d = (size_t)(tl.base - (char*)__builtin_frame_address(0));
    if (d > deepest && (ptrdiff_t)d > 0) { deepest = d; if (d > stack_limit) raw_violation("runaway-stack"); }
    if (sched.on && tl.tid >= 0) sched_yield_point();
}

// -------- synchronisation seams: blocking becomes a scheduling decision
extern "C" {
// Outside of simulated threads nothing contends, so trying until it works is enough.
#define SIM_LOCK(NAME, TYPE, TRY) \
int NAME(TYPE* m) { \
    int r; \
    while ((r = TRY(m)) == EBUSY) { if (in_sim_thread()) sched_block(); else sched_yield(); } \
    return r; \
}
SIM_LOCK(pthread_mutex_lock, pthread_mutex_t, pthread_mutex_trylock)
SIM_LOCK(pthread_rwlock_rdlock, pthread_rwlock_t, pthread_rwlock_tryrdlock)
SIM_LOCK(pthread_rwlock_wrlock, pthread_rwlock_t, pthread_rwlock_trywrlock)
}
#ifdef SIM_TSAN
extern "C" void __tsan_acquire(void*); extern "C" void __tsan_release(void*);
static void TS_ACQ(void* p) { if (shm) __tsan_acquire(p); } // not while the process starts
static void TS_REL(void* p) { if (shm) __tsan_release(p); }
#else
static void TS_ACQ(void*) {} static void TS_REL(void*) {}
#endif
extern "C" {
int pthread_once(pthread_once_t* c, void (*f)(void)) {
    volatile int* p = (volatile int*)c;
    while (*p == 1) { if (in_sim_thread()) sched_block(); else abort(); }
    if (*p == 2) { TS_ACQ(c); return 0; }
    *p = 1;
    struct G { volatile int* p; bool ok; ~G() { *p = ok ? 2 : 0; } } g = { p, false };
    f();
    g.ok = true;
    TS_REL(c);
    return 0;
}}
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(uint64_t* g) {
    volatile unsigned char* b = (volatile unsigned char*)g;
    while (b[1] && !b[0]) { if (in_sim_thread()) sched_block(); else { raw_violation("recursive-static-init"); } }
    if (b[0]) { TS_ACQ(g); return 0; }
    b[1] = 1;
    return 1;
}
extern "C" void __cxa_guard_release(uint64_t* g) noexcept { volatile unsigned char* b = (volatile unsigned char*)g; TS_REL(g); b[0] = 1; b[1] = 0; }
extern "C" void __cxa_guard_abort(uint64_t* g) noexcept { volatile unsigned char* b = (volatile unsigned char*)g; b[1] = 0; }
}

// =====================================================================  runner
namespace {
struct Result { int status; std::string cls, detail, err; u64 hash, steps, events, deepest; };
bool quiet_child = true;

void reset_shm() { memset(shm, 0, offsetof(Shm, edge)); shm->hash = 1469598103934665603ull; }

// Runs one plan in a forked child of this (pristine) process.
Result run_plan(const Plan& plan, const char* logfile = 0) {
    reset_shm();
    static int errfd = -1;
    if (errfd < 0) errfd = memfd_create("err", 0);
    if (ftruncate(errfd, 0)) {}
    lseek(errfd, 0, SEEK_SET);
    fflush(0);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        if (quiet_child) { dup2(errfd, 2); int n = open("/dev/null", O_WRONLY); if (n >= 0) dup2(n, 1); }
        if (logfile) log_fd = open(logfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        // last resort only; hangs are detected by the logical clock
        struct itimerval cpu = { { 0, 0 }, { 30, 0 } }; setitimer(ITIMER_PROF, &cpu, 0);
        alarm(90);
        try { PROPERTY.execute(plan); }
        catch (const std::exception& e) { tl.lib = 0; violate("escaped-exception", e.what()); }
        catch (...) { tl.lib = 0; violate("escaped-exception", "unknown"); }
        finish(1);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Result r;
    r.status = shm->status; r.hash = shm->hash; r.steps = shm->steps; r.events = shm->events; r.deepest = shm->deepest;
    r.cls = shm->cls; r.detail = shm->detail;
    if (r.status == 0) { // died: crash, assert, sanitizer, terminate
        std::string err; char b[4096]; ssize_t n; off_t off = 0;
        while ((n = pread(errfd, b, sizeof b, off)) > 0 && err.size() < 60000) { err.append(b, n); off += n; }
        r.err = err;
        std::string c;
        size_t k;
        if ((k = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
            size_t e = err.find_first_of(" \n", k + 25); c = "asan:" + err.substr(k + 25, e - k - 25);
        } else if ((k = err.find("runtime error: ")) != std::string::npos) {
            size_t e = err.find('\n', k); c = "ubsan:" + err.substr(k + 15, std::min<size_t>(e - k - 15, 60));
            for (auto& ch : c) if (ch == ' ' || (ch >= '0' && ch <= '9')) ch = '_';
        } else if (err.find("WARNING: ThreadSanitizer: data race") != std::string::npos) c = "data-race";
        else if ((k = err.find("ThreadSanitizer: ")) != std::string::npos) { size_t e = err.find_first_of("\n(", k + 17); c = "tsan:" + err.substr(k + 17, e - k - 17);
        } else if ((k = err.find("Assertion `")) != std::string::npos) c = "assert";
        else if ((k = err.find("Assertion '")) != std::string::npos) c = "assert";
        else if (err.find("terminate called") != std::string::npos) c = "terminate";
        else if (WIFSIGNALED(st)) c = WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF ? "stall" : "crash:" + N(WTERMSIG(st));
        else c = "exit:" + N(WEXITSTATUS(st));
        r.status = 2; r.cls = c;
        r.detail = esc(err.substr(0, 1500));
        // the log so far is deterministic; the text of a crash may hold addresses
        r.hash = r.hash * 31 + hash_str(c);
    }
    return r;
}

std::string js(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
Plan gen(u64 seed, u64 idx, int tier) {
    Rng r(mix(mix(seed, hash_str(PROPERTY.id)), idx));
    return PROPERTY.generate(r, tier);
}
bool read_file(const char* f, std::string& s) {
    FILE* h = fopen(f, "rb"); if (!h) return false;
    char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
    fclose(h); return true;
}
double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

bool numeric(const std::string& s) {
    size_t i = (!s.empty() && s[0] == '-') ? 1 : 0;
    if (i >= s.size() || s.size() > 18) return false;
    for (; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false;
    return true;
}

int minimize(Plan plan, const std::string& cls, const char* out, int budget, double tmax) {
    int used = 0;
    double t0 = now();
    auto bad = [&](const Plan& p) { if (used >= budget || now() - t0 > tmax) return false; ++used; Result r = run_plan(p); return r.status == 2 && r.cls == cls; };
    bool progress = true;
    while (progress && used < budget && now() - t0 < tmax) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, plan.lines.size() / 2);; chunk /= 2) { // drop lines
            for (size_t i = 0; i + 0 < plan.lines.size();) {
                Plan q = plan;
                size_t e = std::min(i + chunk, q.lines.size());
                q.lines.erase(q.lines.begin() + i, q.lines.begin() + e);
                if (bad(q)) { plan = q; progress = true; } else i += chunk;
            }
            if (chunk <= 1) break;
        }
        for (size_t i = 0; i < plan.lines.size(); ++i) // drop and shrink arguments
            for (size_t j = 0; j < plan.lines[i].a.size(); ++j) {
                {
                    Plan q = plan; q.lines[i].a.erase(q.lines[i].a.begin() + j, q.lines[i].a.end());
                    if (bad(q)) { plan = q; progress = true; break; }
                }
                std::string cur = plan.lines[i].a[j];
                std::vector<std::string> cand;
                if (numeric(cur)) {
                    long v = strtol(cur.c_str(), 0, 10);
                    if (v != 0) { cand.push_back("0"); if (v > 1) cand.push_back("1"); if (v / 2 != 0) cand.push_back(N(v / 2)); cand.push_back(N(v > 0 ? v - 1 : v + 1)); }
                } else if (!cur.empty()) {
                    cand.push_back("");
                    if (cur.size() > 1) { cand.push_back(cur.substr(0, cur.size() / 2)); cand.push_back(cur.substr(cur.size() / 2)); }
                    if (cur.size() <= 40) for (size_t k = 0; k < cur.size(); ++k) { std::string c = cur; c.erase(k, 1); cand.push_back(c); }
                }
                for (auto& c : cand) {
                    Plan q = plan; q.lines[i].a[j] = c;
                    if (c != plan.lines[i].a[j] && bad(q)) { plan = q; progress = true; if (j > 0) --j; else j = (size_t)-1; break; }
                }
                if (j == (size_t)-1) continue;
            }
    }
    FILE* f = fopen(out, "wb"); if (!f) return 2;
    std::string s = plan.str(); fwrite(s.data(), 1, s.size(), f); fclose(f);
    printf("{\"executions\":%d,\"lines\":%zu}\n", used, plan.lines.size());
    return 0;
}
} // namespace

int main(int argc, char** argv) {
    if (!getenv("SIM_NOASLR")) { // same addresses every time
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    unsetenv("SIM_NOASLR");
    if (const char* k = getenv("SIM_KNOWN")) sim::known_sigs = k;
    shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) { perror("mmap"); return 2; }
    std::string mode = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> o;
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    u64 seed = strtoull(o["--seed"].c_str(), 0, 10);
    int tier = (int)strtol(o["--tier"].c_str(), 0, 10);
    if (mode == "gen") {
        fputs(gen(seed, strtoull(o["--idx"].c_str(), 0, 10), tier).str().c_str(), stdout);
        return 0;
    }
    if (mode == "exec") { // one plan, fully reported
        std::string t; Plan p;
        if (!read_file(o["--plan"].c_str(), t)) { perror("plan"); return 2; }
        Plan::parse(t, p);
        Result r = run_plan(p, o.count("--log") ? o["--log"].c_str() : 0);
        if (o.count("--stderr")) fputs(r.err.c_str(), stderr);
        printf("{\"status\":%d,\"class\":%s,\"detail\":%s,\"hash\":\"%s\",\"steps\":%llu,\"events\":%llu,\"nontrivial\":%d,\"stats\":{", r.status, js(r.cls).c_str(), js(r.detail).c_str(), hex(r.hash).c_str(), (unsigned long long)r.steps, (unsigned long long)r.events, shm->nontrivial);
        for (int i = 0; i < shm->nstat; ++i) printf("%s%s:%llu", i ? "," : "", js(shm->st[i].name).c_str(), (unsigned long long)shm->st[i].v);
        printf("}}\n");
        return 0;
    }
    if (mode == "minimize") {
        std::string t; Plan p;
        if (!read_file(o["--plan"].c_str(), t)) { perror("plan"); return 2; }
        Plan::parse(t, p);
        return minimize(p, o["--class"], o["--out"].c_str(), o.count("--budget") ? atoi(o["--budget"].c_str()) : 3000, o.count("--tmax") ? atof(o["--tmax"].c_str()) : 120);
    }
    if (mode == "batch") {
        u64 start = strtoull(o["--start"].c_str(), 0, 10), n = strtoull(o["--n"].c_str(), 0, 10);
        u64 stride = o.count("--stride") ? strtoull(o["--stride"].c_str(), 0, 10) : 1;
        double tmax = o.count("--tmax") ? atof(o["--tmax"].c_str()) : 1e9;
        int maxv = o.count("--maxv") ? atoi(o["--maxv"].c_str()) : 3;
        bool hashes = o.count("--hashes");
        std::map<std::string, u64> st;
        std::map<std::string, int> seen_cls;
        std::vector<unsigned char> edge(MAXEDGE);
        FILE* sf = o.count("--states") ? fopen(o["--states"].c_str(), "wb") : 0;
        u64 runs = 0, nontriv = 0, tot_steps = 0, tot_events = 0, max_steps = 0, max_stack = 0; int viol = 0, herr = 0;
        double slow = o.count("--slow") ? atof(o["--slow"].c_str()) : 1e9, slow_used = 0; // wall time runs that violate may take together
        std::string vs, hs;
        double t0 = now();
        for (u64 k = 0; k < n; ++k) {
            u64 idx = start + k * stride;
            Plan p = gen(seed, idx, tier);
            double t1 = now();
            Result r = run_plan(p);
            if (r.status == 2) slow_used += now() - t1; else { if (r.steps > max_steps) max_steps = r.steps; if (r.deepest > max_stack) max_stack = r.deepest; }
            ++runs; tot_steps += r.steps; tot_events += r.events;
            if (shm->nontrivial) ++nontriv;
            for (int i = 0; i < shm->nstat; ++i) st[shm->st[i].name] += shm->st[i].v;
            if (sf) {
                // record: plan+log hash (distinct executions), then states
                u64 rec[2] = { 1, r.hash }; if (shm->nontrivial) fwrite(rec, 8, 2, sf);
                for (int i = 0; i < shm->nstate; ++i) { u64 rr[2] = { 2, shm->states[i] }; fwrite(rr, 8, 2, sf); }
            }
            if (hashes) { hs += (hs.empty() ? "" : ","); hs += "[" + N((long long)idx) + ",\"" + hex(r.hash) + "\"]"; }
            if (r.status == 2) {
                if (seen_cls[r.cls]++ < 2) {
                    ++viol;
                    vs += (vs.empty() ? "" : ",");
                    vs += "{\"idx\":" + N((long long)idx) + ",\"class\":" + js(r.cls) + ",\"detail\":" + js(r.detail.substr(0, 1500)) + ",\"hash\":\"" + hex(r.hash) + "\"}";
                }
                if (viol >= maxv || slow_used > slow) break;
            } else if (r.status != 1) {
                ++herr;
                vs += (vs.empty() ? "" : ",");
                vs += "{\"idx\":" + N((long long)idx) + ",\"class\":\"harness\",\"detail\":" + js(r.detail) + ",\"hash\":\"" + hex(r.hash) + "\"}";
                if (herr >= maxv) break;
            }
            if (now() - t0 > tmax) break;
        }
        for (int i = 0; i < MAXEDGE; ++i) edge[i] = shm->edge[i];
        if (sf) { for (int i = 0; i < MAXEDGE; ++i) if (edge[i]) { u64 rr[2] = { 3, (u64)i }; fwrite(rr, 8, 2, sf); } fclose(sf); }
        printf("{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"events\":%llu,\"max_steps\":%llu,\"max_stack\":%llu,\"wall\":%.3f,\"violations\":[%s],\"hashes\":[%s],\"stats\":{", (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)tot_steps, (unsigned long long)tot_events, (unsigned long long)max_steps, (unsigned long long)max_stack, now() - t0, vs.c_str(), hs.c_str());
        bool f = true;
        for (auto& x : st) { printf("%s%s:%llu", f ? "" : ",", js(x.first).c_str(), (unsigned long long)x.second); f = false; }
        printf("}}\n");
        return 0;
    }
    fprintf(stderr, "usage: %s gen|exec|minimize|batch ...\n", argv[0]);
    return 2;
}
