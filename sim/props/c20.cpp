// C20: positional arguments get their names by position.
// Positional descriptions grow, are copied, assigned and dropped, some additions run out of memory;
// in between lines are parsed with them, narrow and wide, with hooks which recognise, swallow and
// insert items, and attempts that fail. A model of the descriptions and of the line is the reference.
#include "cvt.hpp"
#include <boost/program_options.hpp>
#include <climits>
#include <limits>
#include <memory>
namespace po = boost::program_options;
using namespace sim;
typedef std::vector<std::string> Strs;
static const char* NAMES[] = {"alpha", "list", "first", "rest", "one", "impl", "a name which does not fit into a small string", "nowhere"};
static const char* KIND[] = {"word", "adj", "sep", "flag", "list", "impl", "impladj", "short", "ext", "hook", "eat", "insert", "pair", "none", "two", "term"};
enum Kind { WORD, ADJ, SEP, FLAG, LIST, IMPL, IMPL_ADJ, SHORT, EXT, HOOK, EAT, INSERT, PAIR, NONE, TWO, TERM, NKINDS };
static Plan generate(Rng& r, int tier) {
    Plan p;
    int n = r.range(4, tier ? 24 : 14);
    for (int i = 0; i < n; ++i) {
        std::string d = N(r.chance(2, 3) ? 0 : r.range(0, 2));
        switch (r.below(10)) {
        case 0: case 1: case 2: p.add("add", {d, NAMES[r.below(r.chance(1, 8) ? 8 : 7)], N(r.chance(1, 5) ? -1 : r.chance(1, 10) ? r.range(0, 300) : r.range(0, 3))}); break;
        case 3: p.add(r.chance(1, 3) ? "assign" : "copy", {d, N(r.range(0, 2))}); break;
        case 4: if (r.chance(1, 4)) p.add("drop", {d}); else p.add("oom", {N((long long)r.loguniform(300)), N(r.chance(1, 2))}); break;
        case 5: p.add("ask", {d, N((long long)r.loguniform(500))}); break;
        default: {
            if (r.chance(3, 4)) { p.add("clear"); int k = r.chance(1, 10) ? r.range(8, 30) : r.range(0, 8); for (int j = 0; j < k; ++j) { int kind = r.chance(2, 5) ? WORD : (int)r.below(NKINDS); if (kind == TERM && r.chance(1, 2)) kind = WORD; p.add("item", {KIND[kind], (r.chance(1, 12) ? "" : "v" + N(r.range(0, 99)))}); } }
            if (r.chance(1, 8)) p.add("boom", {N(1 + (long long)r.loguniform(20))});
            p.add("parse", {d, N(r.below(2)), N(r.below(3)), N(r.below(2)), N(r.chance(1, 12))}); // wide, hook, unregistered allowed, no description
        } }
    }
    return p;
}
struct Boom : std::runtime_error { Boom() : std::runtime_error("sim: hook") {} };
struct Item { int kind; Strs t; std::string key, v; };
struct Found { std::string key; Strs v, t; int pos; bool unreg; int word; }; // word: 1 may be taken by an option, 2 not
static std::string show(const std::vector<Found>& f) { std::string s; for (auto& x : f) { s += "{" + x.key + (x.unreg ? "?" : "") + (x.pos != -1 ? "@" + (x.pos == INT_MAX ? "max" : N(x.pos)) : "") + ":"; for (auto& y : x.v) s += "<" + y + ">"; s += "/"; for (auto& y : x.t) s += "<" + y + ">"; s += "}"; } return s; }
static std::string show(const Strs& v) { std::string s; for (auto& x : v) s += "<" + x + ">"; return s; }
struct Pos { Strs names; std::string trailing; };
static Item make(const Line& l) {
    Item it; it.kind = -1;
    for (int k = 0; k < NKINDS; ++k) if (l.arg(0) == KIND[k]) it.kind = k;
    std::string v = l.arg(1);
    if (it.kind != WORD && v.empty()) v = "v";
    it.v = v;
    switch (it.kind) {
    case WORD: it.t = {v}; break;
    case ADJ: it.key = "alpha"; it.t = {"--alpha=" + v}; break;
    case SEP: it.key = "first"; it.t = {"--first", v}; break;
    case FLAG: it.key = "flag"; it.t = {"--flag"}; break;
    case LIST: it.key = "list"; it.t = {"--list=" + v}; break;
    case IMPL: it.key = "impl"; it.t = {"--impl"}; break;
    case IMPL_ADJ: it.key = "impl"; it.t = {"--impl=" + v}; break;
    case SHORT: it.key = "alpha"; it.t = {"-a" + v}; break;
    case EXT: it.key = "zeta"; it.t = {"--zeta=" + v}; break;
    case HOOK: it.key = "alpha"; it.t = {"+n" + v}; break;
    case EAT: it.t = {"+e" + v}; break;
    case INSERT: it.t = {"+i" + v}; break;
    case PAIR: it.t = {"+p" + v}; break;
    case NONE: it.t = {"+0" + v}; break;
    case TWO: it.t = {"+2", v}; break;
    case TERM: it.t = {"--"}; break;
    }
    return it;
}
struct Outcome { int kind; std::vector<Found> f; }; // 0 parsed, 1 too many positional arguments, 2 unknown option
static Outcome model(const std::vector<Item>& items, const Pos* pos, int hook, bool unreg) {
    Outcome o; o.kind = 0;
    std::vector<Found> out; bool after = false;
    for (auto& it : items) {
        Found f; f.pos = -1; f.unreg = false; f.word = 0; f.t = it.t; f.key = it.key;
        if (it.kind == TERM && !after) { after = true; continue; }
        bool hooked = hook == 2 || (hook == 1 && it.kind == HOOK);
        if (after) { for (auto& t : it.t) { Found g; g.v = g.t = Strs(1, t); g.pos = -1; g.unreg = false; g.word = 2; g.key = ""; out.push_back(g); } continue; }
        switch (it.kind) {
        case WORD: f.v = it.t; f.word = 1; break;
        case FLAG: case IMPL: break;
        case EXT: f.v = {it.v}; if (!unreg) { o.kind = 2; return o; } f.unreg = true; break;
        case HOOK: case EAT: case INSERT: case PAIR: case NONE: case TWO:
            if (!hooked && it.kind == TWO) { f.key = ""; f.word = 1; f.t = f.v = {"+2"}; out.push_back(f); f.t = f.v = {it.v}; break; }
            if (!hooked) { f.key = ""; f.v = it.t; f.word = 1; break; }
            if (it.kind == EAT) continue;
            f.v = {it.v}; if (hook == 1) f.t.clear();
            if (it.kind == PAIR) f.v.push_back("second"), f.word = 2;
            if (it.kind == NONE) f.v.clear(), f.word = 2;
            if (it.kind == INSERT || it.kind == TWO) f.word = 1;
            break;
        default: f.v = {it.v};
        }
        out.push_back(f);
    }
    for (size_t i = 0; i < out.size(); ++i) { // options which may have more values take the plain words behind them
        o.f.push_back(out[i]); Found& f = o.f.back();
        bool list = f.key == "list", impl = f.key == "impl" && f.v.empty();
        while ((list || impl) && i + 1 < out.size() && out[i + 1].word == 1) { ++i; f.v.push_back(out[i].v[0]); f.t.insert(f.t.end(), out[i].t.begin(), out[i].t.end()); impl = false; }
    }
    int n = 0;
    for (auto& f : o.f) if (f.key.empty()) {
        f.pos = n++;
        if (!pos) continue;
        if ((size_t)f.pos < pos->names.size()) f.key = pos->names[f.pos]; else if (!pos->trailing.empty()) f.key = pos->trailing; else { o.kind = 1; return o; }
    }
    return o;
}
static std::string K(const std::string& s) { return s; }
static std::string K(const std::wstring& s) { return narrow(s); }
static po::options_description* table;
template<class C> static void parse(const Strs& args, const po::positional_options_description* pos, int hook, bool unreg, long boom, Outcome& got, po::variables_map* vm, std::string* stored) {
    typedef std::basic_string<C> S;
    std::vector<S> a; for (auto& x : args) a.push_back(from_n<C>(x));
    long calls = 0;
    std::unique_ptr<po::basic_parsed_options<C> > r;
    got.f.clear(); got.kind = 0;
    try {
        lib([&] {
            po::basic_command_line_parser<C> q(a); q.options(*table);
            if (unreg) q.allow_unregistered();
            if (pos) q.positional(*pos);
            if (hook == 1) q.extra_parser([&](const std::string& t) { Pause p; if (++calls == boom) { tally("fault.hook_throw"); throw Boom(); } return t.compare(0, 2, "+n") == 0 ? std::make_pair(std::string("alpha"), t.substr(2)) : std::make_pair(std::string(), std::string()); });
            if (hook == 2) q.extra_style_parser([&](std::vector<std::string>& v) { Pause p; if (++calls == boom) { tally("fault.hook_throw"); throw Boom(); }
                std::vector<po::option> r; std::string t = v[0];
                if (t.size() < 2 || t[0] != '+') return r;
                v.erase(v.begin()); if (t[1] == 'e') return r;
                po::option o; o.original_tokens.push_back(t);
                if (t[1] == 'n') o.string_key = "alpha";
                if (t == "+2") { if (v.empty()) return r; o.value.push_back(v[0]); o.original_tokens.push_back(v[0]); v.erase(v.begin()); }
                else if (t[1] != '0') o.value.push_back(t.substr(2));
                if (t[1] == 'p') o.value.push_back("second");
                r.push_back(o); return r; });
            r.reset(new po::basic_parsed_options<C>(q.run())); return 0; });
    } catch (po::too_many_positional_options_error&) { got.kind = 1; return; } catch (po::unknown_option&) { got.kind = 2; return; }
    for (auto& o : r->options) { Found f; f.key = o.string_key; f.unreg = o.unregistered; f.pos = o.position_key; for (auto& v : o.value) f.v.push_back(K(v)); for (auto& v : o.original_tokens) f.t.push_back(K(v)); got.f.push_back(f); }
    if (vm) try { lib([&] { po::store(*r, *vm); return 0; }); *stored = ""; } catch (po::error& e) { *stored = typeid(e).name(); }
}
static void execute(const Plan& p) {
    step_limit = 100000000;
    CvtScript local; install(&local);
    AtExit<std::function<void()> > reset([] { std::locale::global(std::locale::classic()); });
    po::options_description tab("Table"); table = &tab;
    lib([&] { tab.add_options()("alpha,a", po::value<Strs>(), "")("first", po::value<Strs>(), "")("rest", po::value<Strs>(), "")("list", po::value<Strs>()->multitoken(), "")
        ("impl", po::value<Strs>()->implicit_value(Strs(1, "I"), "I"), "")("flag", po::value<Strs>()->zero_tokens(), "")("one", po::value<std::string>(), "")(NAMES[6], po::value<Strs>(), ""); return 0; });
    struct Slot { std::unique_ptr<po::positional_options_description> d; Pos m; } D[3];
    for (auto& s : D) lib([&] { s.d.reset(new po::positional_options_description); return 0; });
    long oom = -1, oom_n = 1, boom = 0, parses = 0;
    auto attempt = [&](const std::function<void()>& f) {
        if (oom < 0) { f(); return true; }
        Oom o((u64)oom, oom_n ? 0 : 1); oom = -1;
        try { f(); } catch (std::bad_alloc&) { o.off(); tally("fault.out_of_memory"); return false; }
        o.off();
        return true;
    };
    auto check = [&](int i, const std::string& what) {
        const Pos& m = D[i].m; const po::positional_options_description& d = *D[i].d;
        unsigned n = lib([&] { return d.max_total_count(); }), want = m.trailing.empty() ? (unsigned)m.names.size() : std::numeric_limits<unsigned>::max();
        if (n != want) violate("count-differs", what + ": description " + N(i) + " counts " + N(n) + " instead of " + N(want));
        for (size_t k = 0; k < m.names.size() + 2 && k < n; ++k) {
            const std::string& got = lib([&]() -> const std::string& { return d.name_for_position((unsigned)k); });
            std::string w = k < m.names.size() ? m.names[k] : m.trailing;
            if (got != w) violate("name-differs", what + ": description " + N(i) + " names position " + N((long long)k) + " " + got + " instead of " + w);
        }
    };
    std::vector<Item> items;
    for (auto& l : p.lines) {
        int i = (int)std::min(2L, std::max(0L, l.num(0))), j = (int)std::min(2L, std::max(0L, l.num(1)));
        if (l.op == "add") {
            std::string n = l.arg(1); long c = std::min(300L, std::max(-1L, l.num(2)));
            if (!D[i].m.trailing.empty() || n.empty() || D[i].m.names.size() > 900) continue;
            if (attempt([&] { lib([&] { D[i].d->add(n.c_str(), (int)c); return 0; }); })) { if (c == -1) D[i].m.trailing = n; else D[i].m.names.insert(D[i].m.names.end(), (size_t)c, n); }
            check(i, "adding " + n);
        } else if (l.op == "copy") {
            std::unique_ptr<po::positional_options_description> c;
            if (attempt([&] { lib([&] { c.reset(new po::positional_options_description(*D[i].d)); return 0; }); })) { D[j].d = std::move(c); D[j].m = D[i].m; }
            check(i, "having been copied"); check(j, "having been made a copy");
        } else if (l.op == "assign") { lib([&] { *D[j].d = *D[i].d; return 0; }); D[j].m = D[i].m; check(j, "assigned"); }
        else if (l.op == "drop") { lib([&] { D[i].d.reset(new po::positional_options_description); return 0; }); D[i].m = Pos(); }
        else if (l.op == "oom") { oom = l.num(0); oom_n = l.num(1); }
        else if (l.op == "boom") boom = l.num(0);
        else if (l.op == "ask") {
            unsigned k = (unsigned)std::max(0L, l.num(1));
            if (k >= D[i].d->max_total_count()) continue;
            std::string w = k < D[i].m.names.size() ? D[i].m.names[k] : D[i].m.trailing, g = lib([&] { return D[i].d->name_for_position(k); });
            if (g != w) violate("name-differs", "description " + N(i) + " names position " + N(k) + " " + g + " instead of " + w);
        } else if (l.op == "clear") items.clear();
        else if (l.op == "item") { Item it = make(l); if (it.kind >= 0 && items.size() < 60) items.push_back(it); }
        else if (l.op == "parse") {
            bool wide = l.num(1), unreg = l.num(3), bare = l.num(4); int hook = (int)l.num(2);
            Strs args; for (auto& it : items) args.insert(args.end(), it.t.begin(), it.t.end());
            std::vector<Item> its = items;
            const po::positional_options_description* pos = bare ? 0 : D[i].d.get();
            Outcome want = model(its, bare ? 0 : &D[i].m, hook, unreg), got;
            std::string w = "line " + show(args) + (wide ? ", wide" : "") + " with description " + (bare ? std::string("none") : N(i)) + (hook ? ", hook " + N(hook) : "");
            auto compare = [&](const std::string& what) {
                static const char* R[] = {"the items", "too many positional arguments", "an unknown option"};
                if (got.kind != want.kind) violate("outcome-differs", w + ", " + what + ": " + R[got.kind] + " instead of " + R[want.kind]);
                if (want.kind == 0 && show(got.f) != show(want.f)) violate("items-differ", w + ", " + what + ": " + show(got.f) + " instead of " + show(want.f));
            };
            po::variables_map vm; std::string stored;
            auto go = [&](long b, po::variables_map* v) { if (wide) parse<wchar_t>(args, pos, hook, unreg, b, got, v, &stored); else parse<char>(args, pos, hook, unreg, b, got, v, &stored); };
            if (oom >= 0 && attempt([&] { go(0, 0); })) compare("while memory was short");
            if (boom > 0 && hook) { bool ok = true; try { go(boom, 0); } catch (Boom&) { ok = false; } if (ok) compare("with a hook ready to throw"); boom = 0; }
            go(0, &vm); compare("undisturbed");
            ++parses; if (parses > 1 || !items.empty()) nontrivial();
            ev("parse " + N(want.kind) + " " + N((long long)want.f.size()));
            state(mix(mix((u64)want.kind, want.f.size()), mix((u64)hook * 4 + wide * 2 + unreg, D[i].m.names.size() * 2 + !D[i].m.trailing.empty())));
            if (want.kind) continue;
            // and they arrive under those names
            std::map<std::string, Strs> e; std::map<std::string, int> times; bool unknown = false, bad = false; int implied = 0;
            { int n = 0; bool without = false; for (auto& f : want.f) if (f.key == "impl") { ++n; if (f.v.empty()) without = true; } implied = without ? n : 0; }
            for (auto& f : want.f) { if (f.key.empty() || f.unreg) continue; if (f.key == "nowhere") unknown = true; if (f.key == "one" && (++times["one"] > 1 || f.v.size() != 1)) bad = true;
                Strs& v = e[f.key]; if (f.v.empty() && f.key == "impl") v.push_back("I"); v.insert(v.end(), f.v.begin(), f.v.end()); }
            if (unknown || bad) { if (stored.empty()) violate("stored-wrongly", w + ": stored although " + (unknown ? "a name is unknown" : "an option has too many values")); continue; }
            if (!stored.empty()) violate("not-stored", w + ": " + stored);
            for (auto& x : e) { if (x.first == "impl" && implied > 1) continue; // (a known finding of C04)
                const po::variable_value& v = vm[x.first]; Strs g; if (!v.empty()) { if (x.first == "one") g.push_back(v.as<std::string>()); else g = v.as<Strs>(); } if (g != x.second) violate("stored-differs", w + ": " + x.first + " holds " + show(g) + " instead of " + show(x.second)); }
            if (vm.size() != e.size()) violate("stored-differs", w + ": " + N((long long)vm.size()) + " values instead of " + N((long long)e.size()));
        }
    }
    for (int i = 0; i < 3; ++i) check(i, "in the end");
    tally("parses", parses);
}
const Property sim::PROPERTY = {"C20", generate, execute};
