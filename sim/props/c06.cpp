// C06: notification happens only when complete, and once per value.
#include "world.hpp"
SIM_WORLD_DEFS
using namespace sim;
static Plan generate(Rng& r, int tier) {
    Plan p; WorldGen g(r, p, tier);
    g.table(1, tier ? 12 : 8, 40, r.chance(1, 2) ? 30 : 8, 75, 10);
    int n = r.range(1, tier ? 8 : 5);
    int nm = r.chance(2, 3) ? 1 : 3;
    for (int i = 0; i < n; ++i) {
        int s = r.range(0, 2);
        std::string m = N(r.below(nm));
        g.parse(s, 0, 9, r.chance(1, 6) ? 10 : 0, 0);
        if (r.chance(1, 12)) p.add("store", {m, N(s), "val", N(1 + r.loguniform(6)), N(r.range(0, 3))});
        else p.add("store", {m, N(s)});
        if (r.chance(1, 8)) p.add("put", {m, N(r.range(0, 3)), "v", N(r.range(0, 1))});
        if (r.chance(1, 20)) p.add("clear", {m});
        if (r.chance(1, 10)) p.add("build");
        if (r.chance(1, 12)) g.redef();
        if (r.chance(1, 8) && nm > 1) p.add(r.chance(1, 2) ? "copy" : "clone", {N(r.below(nm)), N(r.below(nm))});
        if (r.chance(1, 10) && nm > 1) p.add("link", {N(r.below(nm)), N(r.below(nm))});
        int k = r.range(0, 2);
        for (int j = 0; j < k; ++j) {
            std::string member = N(r.chance(1, 4));
            if (r.chance(2, 5)) p.add("notify", {m, "throw", N(1 + r.loguniform(8)), N(r.range(0, 1)), member});
            else if (r.chance(1, 10)) p.add("notify", {m, "oom", N(r.loguniform(20)), N(r.range(0, 2)), member});
            else p.add("notify", {m, "", "", "", member});
        }
    }
    p.add("notify", {N(r.below(nm))});
    return p;
}
static void execute(const Plan& p) { World w; w.run(p); if (w.nnotify) nontrivial(); }
const Property sim::PROPERTY = {"C06", generate, execute};
