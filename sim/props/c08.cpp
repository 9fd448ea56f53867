// C08: option tables and results shared by threads never interfere.
// Threads run operations on shared fully built objects and on objects of their own under a
// seeded scheduler that may switch at every basic block of library code. What each operation
// returns, throws or prints must be what it gives alone in a pristine process.
#include "ops.hpp"
static Plan generate(Rng& r, int tier) {
    Plan p;
    gen_world(r, p);
    if (r.chance(1, 3)) p.add("cold");
    int nt = r.chance(1, 2) ? 2 : r.range(2, 6), same = r.chance(1, 3) ? (int)r.below(NOPS) : -1;
    for (int th = 0; th < nt; ++th) {
        int n = r.range(1, tier ? 5 : 3);
        for (int i = 0; i < n; ++i) gen_op(r, p, th, same >= 0 && r.chance(3, 4) ? same : (int)r.below(NOPS));
    }
    // switch script: (basic blocks, thread) pairs
    std::vector<std::string> s; int ns = r.chance(1, 4) ? r.range(100, 600) : r.range(1, 60);
    int style = r.range(0, 3);
    for (int i = 0; i < ns; ++i) {
        long q = style == 0 ? (long)r.loguniform(3000) : style == 1 ? r.range(1, 8) : style == 2 ? (r.chance(1, 2) ? r.range(1, 20) : (long)r.loguniform(5000)) : r.range(100, 400);
        s.push_back(N(q)); s.push_back(N(r.range(0, nt - 1)));
    }
    p.add("sw", s);
    return p;
}

// ------------------------------------------------------------------ execution
static void execute(const Plan& p) {
    step_limit = 400000000;
    World w(p);
    std::vector<std::vector<const Line*> > th;
    for (auto& l : p.lines) if (l.op == "op") { size_t t = (unsigned long)l.num(0) % 8; if (th.size() <= t) th.resize(t + 1); if (th[t].size() < 12) th[t].push_back(&l); }
    for (size_t i = 0; i < th.size();) if (th[i].empty()) th.erase(th.begin() + i); else ++i;
    if (th.empty()) return;
    bool cold = p.has("cold");
    // -- alone: every thread's operations in a pristine process of their own
    std::vector<std::vector<std::string> > ref(th.size());
    for (size_t t = 0; t < th.size(); ++t) ref[t] = run_alone(p, cold, th[t]);
    // -- together
    Shared s; setup(s, p, cold);
    std::vector<std::vector<std::string> > got(th.size());
    std::vector<std::function<void()> > bodies;
    for (size_t t = 0; t < th.size(); ++t) {
        got[t].resize(th[t].size());
        bodies.push_back([&, t] {
            for (size_t k = 0; k < th[t].size(); ++k) {
                int c = 0; for (int i = 0; i < NOPS; ++i) if (th[t][k]->arg(1) == OPNAME[i]) c = i + 1;
                mark(c);
                got[t][k] = run_op(s, *th[t][k]);
            }
            mark(0);
        });
    }
    std::vector<Switch> sw;
    if (const Line* l = p.find("sw")) for (size_t i = 0; i + 1 < l->a.size(); i += 2) { Switch x; x.quantum = (u64)std::max(1L, l->num(i)); x.target = (int)((unsigned long)l->num(i + 1) % th.size()); sw.push_back(x); }
    run_threads(bodies, sw);
    u64 inside_switches = switches_inside();
    tally("thread switches", switches_done()); tally("fault.preemption", inside_switches); tally("threads", th.size());
    if (inside_switches) nontrivial();
    ev("threads " + N((long long)th.size()) + " switches " + N((long long)switches_done()) + " inside " + N((long long)inside_switches) + " steps " + N((long long)steps));
    auto compare = [&](const char* when, size_t t, size_t k, const std::string& g) {
        if (g == ref[t][k]) return;
        size_t i = 0; while (i < g.size() && i < ref[t][k].size() && g[i] == ref[t][k][i]) ++i;
        size_t b = i > 30 ? i - 30 : 0;
        violate(std::string("differs-") + when, "thread " + N((long long)t) + " operation " + th[t][k]->arg(1) + " gave '..." + g.substr(b, 160) + "' instead of '..." + ref[t][k].substr(b, 160) + "' (character " + N((long long)i) + ")");
    };
    for (size_t t = 0; t < th.size(); ++t) for (size_t k = 0; k < th[t].size(); ++k) {
        ev(N((long long)t) + " " + th[t][k]->arg(1) + " " + hex(hash_str(got[t][k])));
        compare("in-threads", t, k, got[t][k]);
    }
    // -- quiet again: shared objects are as before, in another order
    for (size_t t = th.size(); t-- > 0;) for (size_t k = th[t].size(); k-- > 0;) compare("afterwards", t, k, run_op(s, *th[t][k]));
}
const Property sim::PROPERTY = {"C08", generate, execute};
