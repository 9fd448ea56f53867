// C15: values and notifications outlive the sources that produced them.
#include "world.hpp"
#include <malloc.h>
SIM_WORLD_DEFS
using namespace sim;
static Plan generate(Rng& r, int tier) {
    Plan p; WorldGen g(r, p, tier);
    g.table(1, tier ? 12 : 8, 50, 20, 60, 15);
    int n = r.range(3, tier ? 24 : 16);
    auto drop = [&] {
        switch (r.below(4)) {
        case 0: p.add("dropp", {N(r.range(0, 2))}); break;
        case 1: p.add("dropg", {N(r.range(0, 2))}); break;
        default: p.add("dropd", {N(r.range(0, 3))});
        }
    };
    if (r.chance(1, 4)) for (int i = 0; i < 3; ++i) p.add("dropg", {N(i)}); // the table without its groups
    if (r.chance(1, 4)) p.add("dropd", {"0"});                              // the copy without its original
    for (int i = 0; i < n; ++i) {
        int s = r.range(0, 2);
        std::string m = N(r.below(3));
        switch (r.below(9)) {
        case 0: case 1: case 2: g.parse(s, 0, 6, 0, 0); p.add("store", {m, N(s)}); if (r.chance(1, 2)) drop(); break;
        case 3: case 4: drop(); break;
        case 5: p.add("notify", {m}); break;
        case 6: p.add("store", {m, N(s)}); break;
        case 7: if (r.chance(1, 3)) p.add("print", {N(r.range(0, 3))}); else p.add(r.chance(2, 3) ? "copy" : "clear", {m, N(r.below(3))}); break;
        default: if (r.chance(1, 3)) p.add("build"); else if (r.chance(1, 4)) g.redef(); else p.add("lookup", {m, r.pick(g.o).name});
        }
    }
    for (int i = 0; i < 4; ++i) { p.add("dropd", {N(i)}); if (i < 3) { p.add("dropg", {N(i)}); p.add("dropp", {N(i)}); } }
    for (int i = 0; i < 3; ++i) p.add("notify", {N(i)});
    if (r.chance(1, 2)) p.add("copy", {"3", N(r.below(3))});
    p.add("clear", {"0"});
    return p;
}
static void execute(const Plan& p) {
    mallopt(M_PERTURB, 0x5a); // what is freed does not keep its content
    World w; w.run(p);
    if (w.ndrop && w.nstore) nontrivial();
}
const Property sim::PROPERTY = {"C15", generate, execute};
