// C13: layered lookup, copies and clear behave like independent maps.
#include "world.hpp"
SIM_WORLD_DEFS
using namespace sim;
static Plan generate(Rng& r, int tier) {
    Plan p; WorldGen g(r, p, tier);
    g.table(1, tier ? 8 : 5, 50, 15, 30, 10);
    int n = r.range(3, tier ? 22 : 14);
    int slots = 0;
    for (int i = 0; i < n; ++i) {
        std::string a = N(r.below(4)), b = N(r.below(4));
        switch (r.below(10)) {
        case 0: case 1: case 2: { int s = r.range(0, 3); g.parse(s, 0, 5, r.chance(1, 10) ? 15 : 0, 0); p.add("store", {a, N(s)}); if (s >= slots) slots = s + 1; break; }
        case 3: if (r.chance(1, 4)) { p.add("uset", {"0", r.pick(g.o).name, "u" + N(r.range(0, 9)), N(r.range(0, 1)), N(r.chance(1, 5))}); if (r.chance(1, 2)) p.add("ulink", {a}); } else p.add("link", {a, r.chance(1, 8) ? "-1" : b}); break;
        case 4: p.add("link", {a, b}); p.add("lookup", {a, r.pick(g.o).name}); break;
        case 5: p.add(r.chance(1, 2) ? "copy" : r.chance(1, 2) ? "clone" : "move", {a, b}); break;
        case 6: p.add("clear", {a}); if (r.chance(1, 2)) p.add("store", {a, N(r.range(0, 3))}); break;
        case 7: p.add("fresh", {a, r.chance(1, 4) ? "-1" : b}); break;
        case 8: if (r.chance(1, 3)) p.add("put", {a, N(r.range(0, 3)), "v" + N(r.range(0, 9)), N(r.range(0, 1))}); else p.add("store", {a, N(r.range(0, 3))}); break;
        case 9: if (r.chance(1, 3)) { g.redef(); int s = r.range(0, 3); g.parse(s, 0, 3, 0, 0); p.add("store", {a, N(s)}); break; } // fall through
        default: if (r.chance(1, 3)) p.add("notify", {a}); p.add("lookup", {a, r.chance(1, 8) ? "own." + N(r.range(0, 3)) : r.pick(g.o).name});
        }
    }
    return p;
}
static void execute(const Plan& p) {
    World w; w.run(p);
    if (w.nstore && (w.nlink || p.has("copy") || p.has("clear") || p.has("clone") || p.has("move"))) nontrivial();
}
const Property sim::PROPERTY = {"C13", generate, execute};
