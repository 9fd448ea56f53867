// C25: callbacks may use the library.
// Operations whose callbacks (stream buffers, parser hooks, name mappers, validators, value
// semantics, notifiers, converters, maps of the user) perform further operations on the same
// shared objects or on their own, to some depth, and may throw afterwards. Each operation must
// give what it gives alone in a pristine process.
#include "ops.hpp"
// op  <parent> NAME flags args...     parent: number of an earlier operation, or -1
// at  <op> <n>                        ... called from the n-th callback of its parent
// boom <op> <n>                       the n-th callback of this operation throws
// oom  <op> <k>                       the k-th allocation of this operation fails
static Plan generate(Rng& r, int tier) {
    Plan p;
    gen_world(r, p);
    if (r.chance(1, 4)) p.add("cold");
    int n = r.range(2, tier ? 8 : 5), same = r.chance(1, 3) ? (int)r.below(NOPS) : -1;
    static const char* calling[] = {"cmd", "cfg", "wcfg", "env", "storeP", "print", "own", "chain", "conv", "cmdstore", "envstore", "hook", "format", "copyV", "wcmd"};
    std::vector<int> calls, parents;
    for (int k = 0; k < NOPS; ++k) for (const char* c : calling) if (!strcmp(OPNAME[k], c)) calls.push_back(k);
    for (int i = 0; i < n; ++i) {
        int op = same >= 0 && r.chance(3, 4) ? same : (int)r.below(NOPS);
        bool leaf = i > 0 && i == n - 1;
        if (same < 0 && !leaf && r.chance(5, 6)) op = calls[r.below(calls.size())];
        int parent = parents.empty() || r.chance(1, 8) ? -1 : r.chance(1, 2) ? parents.back() : parents[r.below(parents.size())];
        if (std::find(calls.begin(), calls.end(), op) != calls.end()) parents.push_back(i);
        if (parent >= 0 && r.chance(1, 8)) { p.add("op", {N(parent), "peek", "0"}); if (parents.size() && parents.back() == i) parents.pop_back(); }
        else gen_op(r, p, parent, op);
        if (parent >= 0) p.add("at", {N(i), N(r.chance(1, 2) ? 1 + (long long)r.below(3) : 1 + (long long)r.loguniform(40))});
        if (parent >= 0 && r.chance(1, 8)) p.add("oom", {N(i), N((long long)r.loguniform(200))});
    }
    if (r.chance(1, 3)) p.add("boom", {N(r.range(0, n - 1)), N(r.chance(1, 2) ? 1 + (long long)r.below(4) : 1 + (long long)r.loguniform(40))});
    return p;
}

struct CallbackError : std::runtime_error { CallbackError() : std::runtime_error("sim: callback") {} };
struct Node { const Line* l; int parent; long at, boom, oom; std::vector<int> kids; };
static std::vector<Node> nodes;
struct Frame { int op; long count; };
static std::vector<Frame> frames;
static bool nest;           // nested operations are called (not in the reference)
static Shared* shared;
static std::vector<std::pair<int, std::string> > results;
static u64 nested, thrown, booms;
static bool orphan;         // a value under construction, held by a bare pointer of the caller, was lost
static int op_code(const Line* l) { for (int i = 0; i < NOPS; ++i) if (l->arg(1) == OPNAME[i]) return i + 1; return 0; }

static void perform(int i) {
    Node& n = nodes[i];
    Frame f = { i, 0 }; frames.push_back(f);
    AtExit<std::function<void()> > pop([] { frames.pop_back(); });
    if (n.oom > 0 && nest && n.parent >= 0) { // a nested call which runs out of memory
        Oom o((u64)n.oom - 1, 1);
        try { run_op(*shared, *n.l); } catch (std::exception&) { ++thrown; }
        if (mem.failed) tally("fault.nested_out_of_memory");
        return;
    }
    std::string s = run_op(*shared, *n.l);
    results.push_back(std::make_pair(i, s));
}
static void callback(const char* where) {
    if (frames.empty()) return;
    size_t me = frames.size() - 1;
    long c = ++frames[me].count;
    const Node& n = nodes[frames[me].op];
    if (nest && n.oom <= 0 && me < 4) for (int k : n.kids) if (nodes[k].at == c) {
        ++nested; tally("nested operations"); tally((std::string("called from: ") + where).c_str());
        state(mix(mix(hash_str(where), (u64)op_code(n.l)), (u64)op_code(nodes[k].l)));
        ev(std::string("from ") + where + " of " + n.l->arg(1) + ": " + nodes[k].l->arg(1));
        perform(k);
    }
    if (n.boom == c) { ++booms; tally("fault.callback_throw"); if (!strcmp(where, "insertion")) orphan = true; throw CallbackError(); }
}

static void execute(const Plan& p) {
    step_limit = 400000000;
    World w(p);
    nodes.clear(); frames.clear(); results.clear(); nested = thrown = booms = 0;
    for (auto& l : p.lines) {
        if (l.op == "op" && nodes.size() < 16) {
            Node n; n.l = &l; n.parent = (int)l.num(0); n.at = 1; n.boom = n.oom = 0;
            if (n.parent >= (int)nodes.size() || n.parent < 0) n.parent = -1;
            nodes.push_back(n);
        }
        size_t i = (size_t)(unsigned long)l.num(0);
        if ((l.op == "at" || l.op == "boom" || l.op == "oom") && i < nodes.size()) (l.op == "at" ? nodes[i].at : l.op == "boom" ? nodes[i].boom : nodes[i].oom) = l.num(1);
    }
    if (nodes.empty()) return;
    for (auto& n : nodes) if (n.l->arg(1) == "peek") n.boom = 0; // what it reads is the caller's
    for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i].parent >= 0) nodes[nodes[i].parent].kids.push_back((int)i);
    bool cold = p.has("cold");
    // -- alone: every operation in a pristine process of its own, its callbacks do not call the library
    nest = false;
    std::vector<std::string> ref(nodes.size());
    point_fn = callback;
    for (size_t i = 0; i < nodes.size(); ++i) {
        Frame f = { (int)i, 0 }; frames.push_back(f);
        ref[i] = run_alone(p, cold, std::vector<const Line*>(1, nodes[i].l))[0];
        frames.pop_back();
    }
    // -- nested
    Shared s; 
    point_fn = 0; setup(s, p, cold); point_fn = callback;
    shared = &s; nest = true;
    for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i].parent < 0) perform((int)i);
    nest = false;
    if (nested) nontrivial();
    ev("nested " + N((long long)nested) + " thrown " + N((long long)(thrown + booms)));
    auto compare = [&](const char* when, int i, const std::string& g) {
        const std::string& e = ref[i];
        if (g == e) return;
        size_t k = 0; while (k < g.size() && k < e.size() && g[k] == e[k]) ++k;
        size_t b = k > 30 ? k - 30 : 0;
        violate(std::string("differs-") + when, "operation " + N(i) + " (" + nodes[i].l->arg(1) + ") gave '..." + g.substr(b, 160) + "' instead of '..." + e.substr(b, 160) + "' (character " + N((long long)k) + ")");
    };
    for (auto& x : results) {
        ev(N(x.first) + " " + nodes[x.first].l->arg(1) + " " + hex(hash_str(x.second)));
        compare(nodes[x.first].parent >= 0 ? "when-nested" : "around-nested", x.first, x.second);
    }
    // -- quiet again: everything is as before, in another order
    results.clear();
    for (size_t i = nodes.size(); i-- > 0;) { int pa = nodes[i].parent; nodes[i].parent = -1; perform((int)i); nodes[i].parent = pa; }
    for (auto& x : results) compare("afterwards", x.first, x.second);
    // -- whatever callbacks throw, no memory is lost
    for (size_t i = 0; i < nodes.size(); ++i) {
        int pa = nodes[i].parent; nodes[i].parent = -1;
        u64 live = mem.live; orphan = false;
        perform((int)i);
        nodes[i].parent = pa;
        if (mem.live > live && !orphan) violate("leak", N((long long)(mem.live - live)) + " blocks stay allocated after operation " + N((long long)i) + " (" + nodes[i].l->arg(1) + (nodes[i].boom > 0 ? "), whose callback throws" : ")"));
    }
    point_fn = 0;
}
const Property sim::PROPERTY = {"C25", generate, execute};
