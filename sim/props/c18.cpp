// C18: names resolve against what a table holds, at every point of its history.
// Tables grow by options and groups, are copied, emptied, looked up in, parsed with and printed,
// in any order; some additions and lookups run out of memory. A model of the table and of the
// matching rules, and a table built anew from the model, say what each answer has to be.
#include "cvt.hpp"
#include <boost/program_options.hpp>
#include <algorithm>
#include <memory>
#include <sstream>
namespace po = boost::program_options;
using namespace sim;
typedef std::vector<std::string> Strs;
static const char* NAMES[] = {"alpha", "alphabet", "al", "Alpha", "beta", "be", "bet.a", "gamma", "g", "gam*", "w!*", "wild*", "w*", "alpha-x", "BETA", "x", "a=b", "na me", "\xc3\xa9t\xc3\xa9"};
static const int NNAMES = sizeof NAMES / sizeof *NAMES;
static std::string spec(Rng& r) {
    std::string s = NAMES[r.below(NNAMES)];
    if (r.chance(1, 10)) return "," + std::string(1, "abgxAB"[r.below(6)]);
    while (r.chance(1, 4)) s += std::string(",") + NAMES[r.below(NNAMES)];
    if (r.chance(1, 2)) s += std::string(",") + "abgxAB"[r.below(6)];
    return s;
}
static std::string query(Rng& r) {
    std::string n = NAMES[r.below(NNAMES)];
    switch (r.below(8)) {
    case 0: case 1: return n;
    case 2: case 3: case 4: return n.substr(0, 1 + r.below(n.size()));
    case 5: return n + "x";
    case 6: { for (auto& c : n) if (r.chance(1, 2)) c = (char)(isupper((unsigned char)c) ? tolower(c) : toupper((unsigned char)c)); return n; }
    default: return std::string("-") + "abgxABz"[r.below(7)];
    }
}
static Plan generate(Rng& r, int tier) {
    Plan p;
    int n = r.chance(1, 6) ? r.range(20, 60) : r.range(3, tier ? 25 : 16);
    for (int i = 0; i < n; ++i) {
        std::string t = N(r.chance(1, 2) ? 0 : r.range(0, 3));
        switch (r.below(16)) {
        case 0: case 1: case 2: case 3: p.add("opt", {t, spec(r), N(r.range(0, 2))}); break;
        case 4: case 5: p.add("group", {t, N(r.range(0, 3))}); break;
        case 6: p.add("copy", {t, N(r.range(0, 3))}); break;
        case 7: if (r.chance(1, 2)) p.add("drop", {t}); else p.add("print", {t}); break;
        case 8: p.add("oom", {N((long long)r.loguniform(60)), N(r.chance(1, 2))}); break;
        case 9: if (r.chance(1, 2)) { p.add("store", {t, query(r), N(r.below(2))}); break; }
            p.add("cfg", {t, query(r), N(r.below(2))}); break;
        case 10: case 11: p.add("cmd", {t, query(r), N(r.below(8)), N(r.below(2))}); break;
        default: p.add("find", {t, query(r), N(r.below(16))});
        }
    }
    return p;
}
// ------------------------------------------------------------------ model
struct Opt { Strs names; std::string shrt; std::string spec; int kind, id; };
struct Table;
struct Entry { int opt; std::shared_ptr<Table> group; }; // an option, or a group as it was
struct Table { std::string caption; std::vector<Entry> e; };
static std::vector<Opt> opts;
static void flat(const Table& t, std::vector<int>& out) { for (auto& e : t.e) if (e.group) flat(*e.group, out); else out.push_back(e.opt); }
static std::string low(const std::string& s) { std::string r; for (char c : s) r += (char)tolower((unsigned char)c); return r; }
static std::string key(const Opt& o, const std::string& n) { if (o.names.empty()) return o.shrt; return o.names[0].find('*') != std::string::npos ? n : o.names[0]; }
struct Answer { int kind; int id; std::multiset<std::string> alts; }; // 0 unknown, 1 found, 2 ambiguous
static Answer resolve(const Table& t, const std::string& n, bool approx, bool lci, bool sci) {
    std::vector<int> all, full, near; flat(t, all);
    std::string ln = lci ? low(n) : n, sn = sci ? low(n) : n;
    for (int i : all) {
        const Opt& o = opts[i]; int m = 0;
        for (auto& x : o.names) {
            std::string y = lci ? low(x) : x;
            if (y == ln) { m = 2; break; }
            if (approx && y.compare(0, ln.size(), ln) == 0) m = 1;
            if (!y.empty() && y.back() == '*' && ln.compare(0, y.size() - 1, y, 0, y.size() - 1) == 0) m = 1;
        }
        if (m < 2 && !o.shrt.empty() && (sci ? low(o.shrt) : o.shrt) == sn) m = 2;
        if (m == 2) full.push_back(i); else if (m == 1) near.push_back(i);
    }
    Answer a; a.kind = 0; a.id = -1;
    const std::vector<int>& c = full.empty() ? near : full;
    if (c.size() > 1) { a.kind = 2; for (int i : c) a.alts.insert(key(opts[i], n)); }
    else if (c.size() == 1) { a.kind = 1; a.id = opts[c[0]].id; }
    return a;
}
// ------------------------------------------------------------------ real tables
struct Slot { std::unique_ptr<po::options_description> d; Table m; };
static void add_real(po::options_description& d, const Opt& o) {
    std::string desc = "option number " + N(o.id);
    lib([&] {
        if (o.kind == 0) d.add_options()(o.spec.c_str(), po::value<std::string>(), desc.c_str());
        else if (o.kind == 1) d.add_options()(o.spec.c_str(), po::value<Strs>()->multitoken(), desc.c_str());
        else d.add(boost::shared_ptr<po::option_description>(new po::option_description(o.spec.c_str(), po::value<std::string>()->value_name("x"), desc.c_str())));
        return 0; });
}
static std::unique_ptr<po::options_description> anew(const Table& t) {
    std::unique_ptr<po::options_description> d; lib([&] { d.reset(new po::options_description(t.caption)); return 0; });
    for (auto& e : t.e) if (e.group) { std::unique_ptr<po::options_description> g = anew(*e.group); lib([&] { d->add(*g); return 0; }); } else add_real(*d, opts[e.opt]);
    return d;
}
static std::string help(const po::options_description& d) { std::ostringstream o; lib([&] { o << d; return 0; }); return o.str(); }
static std::string show(const std::multiset<std::string>& s) { std::string r; for (auto& x : s) r += "<" + x + ">"; return r; }
static int number(const po::option_description& o) { std::string s = lib([&] { return o.description(); }); return atoi(s.c_str() + std::min(s.size(), (size_t)14)); }
static void execute(const Plan& p) {
    step_limit = 100000000;
    opts.clear();
    Slot T[4];
    for (int i = 0; i < 4; ++i) { T[i].m.caption = "Table " + N(i); lib([&] { T[i].d.reset(new po::options_description(T[i].m.caption)); return 0; }); }
    long oom = -1, oom_n = 1; bool used = false; u64 asked = 0;
    auto size = [](const Table& t) { std::vector<int> v; flat(t, v); return v.size(); };
    // an operation which may run out of memory once; true: it went through
    auto attempt = [&](const std::function<void()>& f) {
        if (oom < 0) { f(); return true; }
        Oom o((u64)oom, oom_n ? 0 : 1); oom = -1;
        try { f(); } catch (std::bad_alloc&) { o.off(); tally("fault.out_of_memory"); return false; }
        o.off();
        return true;
    };
    auto check = [&](int t, const std::string& what) { // the table lists exactly what it should
        std::vector<int> all; flat(T[t].m, all);
        std::string got, want;
        for (auto& o : T[t].d->options()) got += N(number(*o)) + " ";
        for (int i : all) want += N(opts[i].id) + " ";
        for (auto& x : T[t].d->options()) {
            int id = number(*x);
            if (id < 0 || id >= (int)opts.size()) continue;
            const Opt& o = opts[id];
            Strs names = lib([&] { std::pair<const std::string*, size_t> p = x->long_names(); return p.first ? Strs(p.first, p.first + p.second) : Strs(); });
            const std::string first = o.names.empty() ? "" : o.names[0];
            const std::string shown = o.names.empty() ? o.shrt : o.shrt.empty() ? "--" + first : o.shrt + " [ --" + first + " ]";
            if (names != o.names || lib([&] { return x->long_name(); }) != first || lib([&] { return x->format_name(); }) != shown ||
                lib([&] { return x->canonical_display_name(po::command_line_style::allow_long); }) != (o.names.empty() ? o.shrt : "--" + first))
                violate("listing-differs", what + ": option " + N(id) + " of table " + N(t) + " (" + o.spec + ") calls itself " + lib([&] { return x->format_name(); }));
        }
        if (got != want) violate("listing-differs", what + ": table " + N(t) + " lists options " + got + "instead of " + want);
    };
    for (auto& l : p.lines) {
        int t = (int)std::min(3L, std::max(0L, l.num(0)));
        po::options_description& d = *T[t].d;
        if (l.op == "opt" && opts.size() < 100) {
            Opt o; o.spec = l.arg(1); o.kind = (int)l.num(2); o.id = (int)opts.size();
            size_t a = 0; for (;;) { size_t c = o.spec.find(',', a); o.names.push_back(o.spec.substr(a, c - a)); if (c == std::string::npos) break; a = c + 1; }
            if (o.names.size() > 1 && o.names.back().size() == 1) { o.shrt = "-" + o.names.back(); o.names.pop_back(); if (o.names.size() == 1 && o.names[0].empty()) o.names.clear(); }
            bool bad = false; for (auto& x : o.names) if (x.empty()) bad = true;
            if (bad || size(T[t].m) > 200) continue;
            if (attempt([&] { add_real(d, o); })) { opts.push_back(o); Entry e; e.opt = o.id; T[t].m.e.push_back(e); }
            check(t, "adding " + o.spec);
        } else if (l.op == "group") {
            int u = (int)std::min(3L, std::max(0L, l.num(1)));
            if (size(T[t].m) + size(T[u].m) > 200) continue;
            if (attempt([&] { lib([&] { d.add(*T[u].d); return 0; }); })) { Entry e; e.opt = -1; e.group.reset(new Table(T[u].m)); T[t].m.e.push_back(e); }
            check(t, "adding table " + N(u)); check(u, "having been added");
        } else if (l.op == "copy") {
            int u = (int)std::min(3L, std::max(0L, l.num(1)));
            std::unique_ptr<po::options_description> c;
            if (u != t && attempt([&] { lib([&] { c.reset(new po::options_description(*T[t].d)); return 0; }); })) { T[u].d = std::move(c); T[u].m = T[t].m; }
            check(t, "having been copied"); check(u, "having been made a copy");
        } else if (l.op == "drop") {
            std::unique_ptr<po::options_description> c; T[t].m = Table(); T[t].m.caption = "Table " + N(t) + "'";
            lib([&] { c.reset(new po::options_description(T[t].m.caption)); return 0; }); T[t].d = std::move(c);
        } else if (l.op == "oom") { oom = l.num(0); oom_n = l.num(1); }
        else if (l.op == "find" || l.op == "cmd") {
            const std::string& n = l.arg(1); long f = l.num(2);
            if (n.empty()) continue;
            bool approx = f & 1, lci = f & 2, sci = f & 4, cmd = l.op == "cmd", shrt = cmd && n.size() == 2 && n[0] == '-' && n[1] != '-';
            if (cmd && !shrt && (n[0] == '-' || n.find('=') != std::string::npos)) continue;
            Answer a = resolve(T[t].m, n, approx && !shrt, lci, sci), g; g.kind = -1; g.id = -1;
            if (shrt && approx) continue; // two ways to read it
            // a command line names options by their key, which has to be unambiguous as well
            if (cmd && a.kind == 1) { Answer b = resolve(T[t].m, key(opts[a.id], n), approx, lci, sci); if (b.kind == 2) a = b; }
            std::string text, k;
            bool done = attempt([&] {
                try {
                    if (cmd) {
                        using namespace po::command_line_style;
                        int style = (unix_style & ~allow_guessing) | (approx ? allow_guessing : 0) | (lci ? long_case_insensitive : 0) | (sci ? short_case_insensitive : 0);
                        std::vector<std::string> args; if (shrt) { args.push_back(n); args.push_back("v"); } else args.push_back("--" + n + "=v");
                        po::parsed_options r = lib([&] { po::command_line_parser q(args); q.options(d).style(style); if (l.num(3)) q.allow_unregistered(); return q.run(); });
                        g.kind = r.options.empty() || r.options[0].unregistered ? 0 : 1;
                        if (g.kind) { k = r.options[0].string_key; if (a.kind == 1 && k == key(opts[a.id], n)) g.id = a.id; }
                    } else if (const po::option_description* o = lib([&] { return f & 8 ? &d.find(n, approx, lci, sci) : d.find_nothrow(n, approx, lci, sci); })) { g.kind = 1; g.id = number(*o); }
                    else g.kind = 0;
                } catch (po::ambiguous_option& e) { g.kind = 2; for (auto& x : e.alternatives()) g.alts.insert(x); text = e.what(); }
                catch (po::unknown_option& e) { g.kind = 0; text = e.what(); }
            });
            ++asked;
            if (!done) continue;
            ev(l.op + " " + n + " " + N(g.kind) + " " + N(g.id));
            state(mix(mix((u64)a.kind * 4 + a.alts.size(), (u64)f * 2 + cmd), hash_str(n)));
            std::string w = l.op + " '" + n + "'" + (approx ? " abbreviated" : "") + (lci ? " any case" : "") + (sci ? " any short case" : "") + " in table " + N(t);
            static const char* KIND[] = {"nothing", "nothing (unknown)", "an option", "an ambiguity"};
            if (g.kind != a.kind) violate("resolves-differently", w + " gives " + KIND[g.kind + 1] + " instead of " + KIND[a.kind + 1]);
            if (g.kind == 1 && g.id != a.id) violate("wrong-option", w + " gives option " + N(g.id) + " (" + k + ") instead of " + N(a.id));
            if (g.kind == 2 && g.alts != a.alts) violate("alternatives-differ", w + " names " + show(g.alts) + " instead of " + show(a.alts));
            used = true;
        } else if (l.op == "store") { // settings which come from elsewhere name options exactly
            const std::string& n = l.arg(1);
            if (n.empty()) continue;
            Answer a = resolve(T[t].m, n, false, false, false), g; g.kind = -1; g.id = -1;
            po::variables_map vm; std::string text;
            bool done = attempt([&] {
                try {
                    po::parsed_options r = lib([&] { po::parsed_options q(&d); po::option o(n, Strs(1, "v")); if (l.num(2)) o.original_tokens.push_back("tok"); q.options.push_back(o); return q; });
                    vm.clear(); lib([&] { po::store(r, vm); return 0; }); g.kind = 1;
                } catch (po::ambiguous_option& e) { g.kind = 2; for (auto& x : e.alternatives()) g.alts.insert(x); } catch (po::unknown_option& e) { g.kind = 0; }
            });
            ++asked;
            if (!done) continue;
            std::string w = "storing '" + n + "' with table " + N(t);
            if (g.kind != a.kind) violate("resolves-differently", w + " gives " + N(g.kind) + " instead of " + N(a.kind) + " (0 unknown, 1 stored, 2 ambiguous)");
            if (g.kind == 2 && g.alts != a.alts) violate("alternatives-differ", w + " names " + show(g.alts) + " instead of " + show(a.alts));
            if (g.kind == 1) {
                const po::variable_value& v = vm[n]; std::string got = "another type";
                if (vm.size() != 1 || v.empty()) got = "nothing"; else if (opts[a.id].kind == 1) { if (v.value().type() == typeid(Strs)) got = show(std::multiset<std::string>(v.as<Strs>().begin(), v.as<Strs>().end())); } else if (v.value().type() == typeid(std::string)) got = "<" + v.as<std::string>() + ">";
                if (got != "<v>") violate("wrong-option", w + " stores " + got + " instead of what option " + N(a.id) + " makes of v");
            }
            used = true;
        } else if (l.op == "cfg") {
            const std::string& n = l.arg(1);
            std::vector<int> all; flat(T[t].m, all);
            // names with blanks, '=' or '#' cannot be written in a file; wildcards which include each other are refused
            if (n.find_first_of("=#[ ") != std::string::npos) continue;
            std::set<std::string> wild; bool shorts = false, known = false, clash = false;
            for (int i : all) { const Opt& o = opts[i]; if (o.names.empty()) { shorts = true; continue; } if (o.names[0] == n) known = true; if (o.names[0].back() == '*') wild.insert(o.names[0].substr(0, o.names[0].size() - 1)); }
            for (auto& x : wild) { if (n.compare(0, x.size(), x) == 0) known = true; for (auto& y : wild) if (&x != &y && y.compare(0, x.size(), x) == 0) clash = true; }
            int want = shorts || clash ? 2 : known ? 1 : 0, got = -1;
            bool done = attempt([&] {
                std::istringstream is(n + " = v\n");
                try { po::parsed_options r = lib([&] { return po::parse_config_file(is, d, l.num(2) != 0); }); got = r.options.size() != 1 ? 3 : r.options[0].unregistered ? 0 : 1; }
                catch (po::unknown_option&) { got = 0; } catch (po::error&) { got = 2; }
                if (is.bad()) throw std::bad_alloc();
            });
            if (done && got != want) violate("file-differs", "the file line '" + n + " = v' gives " + N(got) + " instead of " + N(want) + " with table " + N(t) + " (0 unknown, 1 known, 2 table refused)");
            used = true;
        } else if (l.op == "print") {
            std::unique_ptr<po::options_description> f = anew(T[t].m);
            if (help(d) != help(*f)) violate("help-differs", "table " + N(t) + " prints\n" + help(d) + "instead of\n" + help(*f));
            used = true;
        }
    }
    if (used && opts.size() > 1) nontrivial();
    for (int t = 0; t < 4; ++t) {
        check(t, "in the end");
        std::unique_ptr<po::options_description> f = anew(T[t].m);
        if (help(*T[t].d) != help(*f)) violate("help-differs", "in the end table " + N(t) + " prints\n" + help(*T[t].d) + "instead of\n" + help(*f));
    }
    tally("lookups", asked);
}
const Property sim::PROPERTY = {"C18", generate, execute};
