// C05: a source that fails to store leaves settled values alone and blocks nothing.
#include "world.hpp"
SIM_WORLD_DEFS
using namespace sim;
static Plan generate(Rng& r, int tier) {
    Plan p; WorldGen g(r, p, tier);
    g.table(1, tier ? 10 : 6, 50, 15, 30, 35);
    int n = r.range(2, tier ? 9 : 6);
    int nm = r.chance(3, 4) ? 1 : 2;
    for (int i = 0; i < n; ++i) {
        int s = r.range(0, 3);
        std::string m = N(r.below(nm));
        int how = r.chance(2, 5) ? (int)r.range(1, 3) : 0;
        g.parse(s, 0, 7, how == 1 ? 25 : 0, how == 1 && r.chance(1, 3) ? 40 : 0);
        if (how == 2) p.add("store", {m, N(s), "val", N(1 + r.loguniform(8)), N(r.range(0, 3))});
        else if (how == 3) p.add("store", {m, N(s), "oom", N(r.loguniform(120)), N(r.chance(1, 2) ? 0 : r.range(1, 3))});
        else p.add("store", {m, N(s)});
        if (how && r.chance(1, 3)) p.add("store", {m, N(s)}); // the same source again
        if (r.chance(1, 4)) p.add("notify", {m});
        if (r.chance(1, 20)) p.add("clear", {m});
        if (r.chance(1, 8)) p.add("lookup", {m, r.pick(g.o).name});
        if (r.chance(1, 15)) g.redef();
        if (r.chance(1, 15)) p.add("copy", {N(r.below(2)), N(r.below(2))});
    }
    return p;
}
static void execute(const Plan& p) { World w; w.run(p); if (w.nfail) nontrivial(); }
const Property sim::PROPERTY = {"C05", generate, execute};
