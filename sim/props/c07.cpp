// C07: the environment is read variable by variable, whatever state it is in.
#include "world.hpp"
#include <boost/program_options/environment_iterator.hpp>
SIM_WORLD_DEFS
using namespace sim;

static std::string gen_entry(Rng& r, const std::string& prefix) {
    static const char* vals[] = {"", "1", "value", "a=b", "=", "two words", "UPPER Case", "%value%", "\xc3\xa9\xff", "\n", "x#y", "a much longer value that needs memory of its own, certainly"};
    static const char* nm[] = {"A", "FOO", "foo_bar", "X_Y_Z", "1", "Path", "\xc4\x8c", "A B", "verbose", "NAME_THAT_IS_QUITE_LONG_INDEED_FOR_A_VARIABLE"};
    std::string n = r.chance(1, 2) ? prefix + nm[r.below(10)] : r.chance(1, 4) ? prefix.substr(0, r.below(prefix.size() + 1)) + nm[r.below(10)] : nm[r.below(10)];
    if (r.chance(1, 10)) n = prefix;
    if (r.chance(1, 15)) { for (auto& c : n) if (c >= 'A' && c <= 'Z') c += 32; }
    switch (r.below(14)) {
    case 0: return n;                    // no equals sign
    case 1: return "=" + n + "=" + vals[r.below(12)];
    case 2: return "";
    case 3: return "=";
    default: return n + "=" + (r.chance(1, 60) ? std::string((size_t)r.range(1000, 60000), 'v') : std::string(vals[r.below(12)]));
    }
}
static Plan generate(Rng& r, int tier) {
    static const char* pf[] = {"PFX_", "", "A", "_", "app.", "FOO", "=", "X_Y", "\xc4"};
    Plan p;
    int n = r.range(1, tier ? 9 : 5);
    for (int i = 0; i < n; ++i) {
        std::string prefix = pf[r.below(9)];
        if (r.chance(3, 4) || i == 0) {
            int k = r.below(12);
            if (k == 0) p.add("env", {"absent"});
            else if (k == 1) p.add("env", {"clear"});
            else if (k == 2) p.add("env", {"keep"});
            else p.add("env", {"block"});
            int m = r.chance(1, 30) ? 300 : r.range(0, 9);
            std::string last;
            for (int j = 0; j < m && k != 0; ++j) { std::string e = r.chance(1, 6) && !last.empty() ? last : gen_entry(r, prefix); p.add("entry", {e}); last = e; }
            if (r.chance(1, 5)) p.add("set", {"PFX_Q" + N(r.range(0, 3)), "v" + N(r.range(0, 9))});
            if (r.chance(1, 10)) p.add("unset", {"PFX_Q" + N(r.range(0, 3))});
        }
        int w = r.below(5);
        if (w < 2) p.add("prefix", {prefix, N(r.range(0, 1))});
        else p.add("map", {N(r.range(0, 6)), r.chance(1, 4) ? N(1 + r.loguniform(8)) : "0", N(r.range(0, 1))});
    }
    return p;
}
static std::string map_name(int kind, const std::string& s) {
    std::string l;
    for (char c : s) l += c >= 'A' && c <= 'Z' ? (char)(c + 32) : c;
    switch (kind) {
    case 1: return l;
    case 2: return s.size() % 2 ? "" : l;
    case 3: return "same";
    case 4: return "";
    case 5: return s.empty() ? "" : s.substr(1);
    case 6: return s + "=" + s;
    default: return s;
    }
}
static std::string pref_name(const std::string& pre, const std::string& s) {
    return s.compare(0, pre.size(), pre) == 0 ? map_name(1, s.substr(pre.size())) : "";
}
typedef std::vector<std::pair<std::string, std::string> > Pairs;
static Pairs entries() { // all variables of the environment as it is now
    Pairs r;
    for (char** e = environ; e && *e; ++e) {
        const char* b = *e; const char* q = strchr(b, '=');
        if (q) r.push_back(std::make_pair(std::string(b, q), std::string(q + 1)));
    }
    return r;
}
struct Snap { // the block itself and what it points to
    char** env; std::vector<char*> p; std::vector<std::string> t;
    Snap() : env(environ) { for (char** e = environ; e && *e; ++e) { p.push_back(*e); t.push_back(*e); } }
    void check(const char* when) const {
        Snap n;
        if (n.env != env || n.p != p || n.t != t) violate("environment-changed", when);
    }
};
static void execute(const Plan& p) {
    po::options_description d("all");
    d.add_options()("alpha", po::value<std::string>(), "x");
    step_limit = 20000000;
    std::vector<std::unique_ptr<std::vector<char*> > > blocks;
    std::vector<std::unique_ptr<std::string> > texts;
    int parses = 0;
    for (size_t i = 0; i < p.lines.size(); ++i) {
        const Line& l = p.lines[i];
        if (l.op == "env") {
            if (l.arg(0) == "absent") environ = 0;
            else if (l.arg(0) == "clear") clearenv();
            else if (l.arg(0) == "block") { // entries are taken up to the next operation
                blocks.emplace_back(new std::vector<char*>());
                for (size_t j = i + 1; j < p.lines.size() && p.lines[j].op == "entry"; ++j) {
                    texts.emplace_back(new std::string(p.lines[j].arg(0).c_str()));
                    blocks.back()->push_back(&(*texts.back())[0]);
                }
                blocks.back()->push_back(0);
                environ = blocks.back()->data();
            }
            ev("env " + l.arg(0)); tally(("env." + l.arg(0)).c_str());
        }
        else if (l.op == "set" && !l.arg(0).empty()) { setenv(l.arg(0).c_str(), l.arg(1).c_str(), 1); ev("setenv"); }
        else if (l.op == "unset" && !l.arg(0).empty()) { unsetenv(l.arg(0).c_str()); ev("unsetenv"); }
        else if (l.op == "prefix" || l.op == "map") {
            Pairs all = entries(), want;
            Snap snap;
            size_t raw = snap.p.size();
            bool pre = l.op == "prefix";
            int kind = (int)((unsigned long)l.num(0) % 7);
            std::string prefix = l.arg(0).c_str();
            long throw_at = pre ? 0 : l.num(1), calls = 0; int tk = (int)((unsigned long)l.num(2) % 2);
            for (auto& e : all) { std::string n = pre ? pref_name(prefix, e.first) : map_name(kind, e.first); if (!n.empty()) want.push_back(std::make_pair(n, e.second)); }
            std::vector<std::string> asked;
            int got = 0; bool threw = false;
            std::unique_ptr<po::parsed_options> res;
            auto mapper = [&](const std::string& s) -> std::string {
                Pause pz;
                asked.push_back(s);
                if (throw_at && ++calls == throw_at) { threw = true; tally("fault.mapper_throw"); throw_user(tk, 77); }
                return map_name(kind, s);
            };
            try {
                if (pre && l.num(1)) res.reset(new po::parsed_options(lib([&] { return po::parse_environment(d, prefix.c_str()); })));
                else if (pre) res.reset(new po::parsed_options(lib([&] { return po::parse_environment(d, prefix); })));
                else res.reset(new po::parsed_options(lib([&] { return po::parse_environment(d, boost::function1<std::string, std::string>(mapper)); })));
            }
            catch (UserErr& e) { got = e.id == 77 && tk == 0 ? 4 : 6; }
            catch (OddErr& e) { got = e.id == 77 && tk == 1 ? 4 : 6; }
            catch (std::exception& e) { violate("wrong-error", e.what()); }
            ++parses; tally("parses");
            snap.check("after a parse");
            ev((pre ? "prefix " + prefix : "map " + N(kind)) + " entries " + N((long long)raw) + " -> " + N(got) + " want " + N((long long)want.size()));
            if (raw || !environ) nontrivial();
            state(mix(mix(std::min<size_t>(raw, 12), std::min<size_t>(want.size(), 12)), got * 16 + (pre ? 8 : kind)));
            if (threw != (got == 4)) violate("error-replaced", "the mapping's exception did not arrive unchanged");
            if (got) continue;
            Pairs have;
            for (auto& o : res->options) {
                if (o.value.size() != 1 || o.position_key != -1 || o.unregistered) violate("setting-shape", "setting '" + o.string_key + "'");
                have.push_back(std::make_pair(o.string_key, o.value[0]));
            }
            if (res->description != &d) violate("description", "parsed options refer to another description");
            if (have != want) {
                std::string t; for (size_t k = 0; k < have.size() || k < want.size(); ++k) if (k >= have.size() || k >= want.size() || have[k] != want[k]) {
                    t = "at " + N((long long)k) + " got " + (k < have.size() ? have[k].first + "=" + have[k].second.substr(0, 80) : "nothing") + " expected " + (k < want.size() ? want[k].first + "=" + want[k].second.substr(0, 80) : "nothing"); break; }
                violate("settings-differ", t);
            }
            // the iterator the parser is made of
            Pairs it;
            lib([&] { for (boost::environment_iterator b(environ), e; b != e; ++b) it.push_back(*b); return 0; });
            if (it != all) violate("iterator-differs", N((long long)it.size()) + " variables instead of " + N((long long)all.size()));
        }
    }
}
const Property sim::PROPERTY = {"C07", generate, execute};
