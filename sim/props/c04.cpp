// C04: first explicit value wins, lists compose, defaults yield.
#include "world.hpp"
SIM_WORLD_DEFS
using namespace sim;
static Plan generate(Rng& r, int tier) {
    Plan p; WorldGen g(r, p, tier);
    g.table(1, tier ? 12 : 8, 40, 10, 20, 15);
    int n = r.range(1, tier ? 10 : 6);
    unsigned bad = r.chance(1, 3) ? 8 : 0, rep = r.chance(1, 4) ? 20 : 0;
    int nm = r.chance(2, 3) ? 1 : 3;
    for (int i = 0; i < n; ++i) {
        int s = r.range(0, 2);
        g.parse(s, 0, 7, bad, rep);
        p.add("store", {N(r.below(nm)), N(s)});
        if (r.chance(1, 8)) p.add("store", {N(r.below(nm)), N(r.range(0, 2))});
        if (r.chance(1, 10)) p.add("notify", {N(r.below(nm))});
        if (r.chance(1, 25)) p.add("clear", {N(r.below(nm))});
        if (r.chance(1, 12)) p.add("lookup", {N(r.below(nm)), r.pick(g.o).name});
        if (r.chance(1, 30)) p.add("build");
        if (r.chance(1, 10)) g.redef();
    }
    return p;
}
static void execute(const Plan& p) { World w; w.run(p); if (w.nstore > 1) nontrivial(); }
const Property sim::PROPERTY = {"C04", generate, execute};
