// C19: modules which share a command line.
// Several modules, in a seeded order, each parse what the ones before left over (unregistered
// options allowed, then the collection function). Attempts of a stage fail, by memory or by a
// throwing hook, and are repeated. A model which knows what each piece of the line is and whose
// it is says what every stage finds, what it leaves, and what is stored in the end.
#include "cvt.hpp"
#include <boost/program_options.hpp>
#include <memory>
namespace po = boost::program_options;
using namespace sim;
typedef std::vector<std::string> Strs;
static const int NM = 4;
// Options of module m (letter L = 'a'+m): Lpha,L value; Long-name value; Lflag,(A+m or i+m) flag; Lquiet,(w+m)
// flag; Xlpha-x and Xlp values, X being the letter of the next module (without abbreviations); List,(G+m) list of several tokens; Lmpl value which may be left out
static std::string L(int m) { return std::string(1, (char)('a' + m)); }
enum Kind { ADJ, SEP, SHORT_ADJ, SHORT_SEP, FLAG, GROUP, LIST, IMPL, IMPL_ADJ, EXT, WORD, HOOK, TERM, NKINDS };
static const char* KIND[] = {"adj", "sep", "sadj", "ssep", "flag", "group", "list", "impl", "impladj", "ext", "word", "hook", "term"};
struct Item { int kind, m; Strs t; std::string key, v; bool after; };
static std::string value(Rng& r) { static const char* v[] = {"v", "a b", "x=y", "--", "-5", "-12", "\xc3\xa9t\xc3\xa9", "=", "/s", "long value which does not fit into a small string"}; return r.chance(1, 3) ? v[r.below(10)] : "v" + N(r.range(0, 99)); }
static Plan generate(Rng& r, int tier) {
    Plan p;
    int nm = r.range(1, NM);
    std::vector<int> order; for (int i = 0; i < nm; ++i) order.push_back(i);
    for (int i = nm - 1; i > 0; --i) std::swap(order[i], order[r.below((u64)i + 1)]);
    if (r.chance(1, 4)) order.push_back(order[r.below(order.size())]); // a module asks twice
    std::set<std::string> once;
    bool guess = r.chance(1, 2), ci = r.chance(1, 3), dis = !guess && r.chance(1, 3);
    p.add("style", {N(guess), N(ci), N(dis), N(r.chance(1, 3))});
    int n = r.chance(1, 8) ? r.range(10, 40) : r.range(0, tier ? 14 : 9);
    bool term = false;
    for (int i = 0; i < n; ++i) {
        if (!term && r.chance(1, 16)) { p.add("item", {"term", "0"}); term = true; continue; }
        int m = (int)r.below((u64)nm), k = term ? WORD : (int)r.below(TERM);
        if (!term && r.chance(1, 12)) m = NM + (int)r.below(2); // nobody's
        std::string v = value(r), g;
        if (k == FLAG || k == IMPL || k == IMPL_ADJ || k == GROUP) { std::string key = N(k == FLAG || k == GROUP ? 1 : 2) + L(m); if (!once.insert(key).second) k = r.chance(1, 2) ? WORD : ADJ; }
        if (k == WORD) v = term && r.chance(1, 4) ? "--after" : "w" + N(r.range(0, 99));
        if (k == HOOK) v = "h" + N(r.range(0, 99));
        p.add("item", {KIND[k], N(m), v, N(r.range(0, 7))});
    }
    for (int m : order) {
        int s = r.range(0, 3);
        p.add("stage", {N(m), N(s == 1), N(s == 2 ? r.range(1, 2) : 0), N(r.chance(1, 4))}); // module, wide, hook, positional names
        if (r.chance(1, 4)) p.add("oom", {N((long long)r.loguniform(400)), N(r.chance(1, 2) ? 0 : 1), N((int)p.lines.size())});
        if (r.chance(1, 6)) p.add("boom", {N(1 + (long long)r.loguniform(12))});
    }
    return p;
}
struct Boom : std::runtime_error { Boom() : std::runtime_error("sim: hook") {} };
struct Found { std::string key; Strs v, t; bool unreg, pos; };
static std::string show(const std::vector<Found>& f) { std::string s; for (auto& x : f) { s += "{" + x.key + (x.unreg ? "?" : "") + (x.pos ? "@" : "") + ":"; for (auto& y : x.v) s += "<" + y + ">"; s += "/"; for (auto& y : x.t) s += "<" + y + ">"; s += "}"; } return s; }
static std::string show(const Strs& v) { std::string s; for (auto& x : v) s += "<" + x + ">"; return s; }
static bool guess, ci, dis, sci; // abbreviations; case of long names; long names with one dash; case of short names
static char flag_letter(int m) { return (char)((sci ? 'i' : 'A') + m); }
static std::string up(const std::string& s) { std::string r; for (char c : s) r += (char)toupper((unsigned char)c); return r; }
// one piece of the command line and its tokens; f varies the spelling
static Item make(const Line& l) {
    Item it; it.kind = -1; it.after = false;
    for (int k = 0; k < NKINDS; ++k) if (l.arg(0) == KIND[k]) it.kind = k;
    it.m = (int)std::min(5L, std::max(0L, l.num(1))); it.v = l.arg(2);
    long f = l.num(3);
    std::string c = L(it.m), sc = sci && (f & 4) ? up(c) : c, d = dis && (f & 4) ? "-" : "--";
    auto name = [&](const char* full, const char* brief) { it.key = c + full; std::string n = guess && (f & 1) ? c + brief : it.key; return d + (ci && (f & 2) ? up(n) : n); };
    std::string v = it.v.empty() ? "v" : it.v;
    it.v = v;
    switch (it.kind) {
    case ADJ: it.t = {(f & 2 ? name("long-name", "lo") : name("lpha", "lph")) + "=" + v}; break;
    case SEP: if (v == "--") it.v = v = "v"; it.t = {f & 2 ? name("long-name", "lo") : name("lpha", "lph"), v}; break;
    case SHORT_ADJ: it.key = c + "lpha"; if (v == "--") it.v = v = "9"; it.t = {"-" + sc + v}; break;
    case SHORT_SEP: it.key = c + "lpha"; if (v == "--") it.v = v = "v"; it.t = {"-" + sc, v}; break;
    case FLAG: it.t = {f & 2 ? name("flag", "fl") : name("quiet", "q")}; break;
    case GROUP: { std::string g; g += flag_letter(it.m); g += (char)('w' + it.m % 4); it.t = {"-" + (sci && (f & 2) ? up(g) : g)}; } if (f & 1) it.t[0] += sc + "7"; break;
    case LIST: it.t = {name("ist", "is") + "=" + v}; break;
    case IMPL: it.t = {name("mpl", "mp")}; break;
    case IMPL_ADJ: it.t = {name("mpl", "mp") + "=" + v}; break;
    case EXT: if (it.m >= NM) { static const char* longer[] = {"lpha-zz", "ist2", "flags", "mpla"}; it.t = {"--" + L((int)(f & 3)) + longer[v.size() & 3] + (f & 4 ? "" : "=" + v)}; break; } // nobody's, longer than a name
        it.key = L((it.m + 1) % NM) + (f & 1 ? "lpha-x" : "lp"); it.t = {"--" + (ci && (f & 2) ? up(it.key) : it.key) + "=" + v}; break;
    case WORD: it.t = {v}; break;
    case HOOK: it.key = c + "lpha"; it.t = {"+" + c + v}; break;
    case TERM: it.t = {"--"}; break;
    default: break;
    }
    return it;
}
// what a token which belongs to nobody present is taken for
static Found foreign(const std::string& t) {
    Found f; f.t = {t}; f.unreg = true; f.pos = false;
    if (t.size() >= 3 && t[0] == '-' && t[1] == '-') { size_t e = t.find('='); f.key = t.substr(2, e == std::string::npos ? e : e - 2); if (e != std::string::npos) f.v = {t.substr(e + 1)}; }
    else if (t.size() >= 2 && t[0] == '-' && t[1] != '-') { f.key = t.substr(0, 2); if (t.size() > 2) f.v = {t.substr(2)}; }
    else { f.v = {t}; f.unreg = false; f.pos = true; }
    return f;
}
struct Stage { int m; bool wide; int hook; bool names; long oom, oom_n, boom; };
static std::vector<Found> model(const Stage& s, const std::vector<Item>& items, std::vector<Item>& rest) {
    std::vector<Found> out; std::vector<int> from; bool after = false; // from: index of the item, -1: not a word
    std::vector<bool> gone(items.size());
    for (size_t i = 0; i < items.size(); ++i) {
        const Item& it = items[i];
        bool mine = it.m == s.m && !after && it.kind != WORD && it.kind != TERM && (it.kind != HOOK || s.hook);
        if (it.kind == TERM && !after) { after = true; gone[i] = true; continue; }
        if (after) { Found f; f.v = f.t = it.t; f.unreg = false; f.pos = true; out.push_back(f); from.push_back(-2); continue; }
        if (!mine) {
            for (auto& t : it.t) { out.push_back(foreign(t)); from.push_back(out.back().pos ? (it.kind == WORD || it.kind == HOOK ? (int)i : -3) : -1); }
            continue;
        }
        gone[i] = true;
        if (it.kind == GROUP) {
            Found f; f.unreg = f.pos = false; f.key = L(it.m) + "flag"; out.push_back(f); from.push_back(-1);
            bool more = it.t[0].size() > 3;
            f.key = L(it.m) + "quiet"; if (!more) f.t = it.t; out.push_back(f); from.push_back(-1);
            if (more) { f.key = L(it.m) + "lpha"; f.v = {"7"}; f.t = it.t; out.push_back(f); from.push_back(-1); }
            continue;
        }
        Found f; f.unreg = f.pos = false; f.key = it.key;
        if (it.kind != FLAG && it.kind != IMPL) f.v = {it.v};
        f.t = it.t; // a long option spelled with one dash is put down with two
        if (dis && it.kind != HOOK && it.t[0].size() > 2 && it.t[0][0] == '-' && it.t[0][1] != '-' && it.kind != SHORT_ADJ) f.t[0] = "-" + f.t[0];
        if (it.kind == HOOK && s.hook == 1) f.t.clear(); // such a parser cannot say
        out.push_back(f); from.push_back(-1);
    }
    // options which may have more values take the words right behind them
    std::vector<Found> fin;
    for (size_t i = 0; i < out.size(); ++i) {
        fin.push_back(out[i]); Found& f = fin.back();
        bool list = f.key == L(s.m) + "ist" && !f.unreg, impl = f.key == L(s.m) + "mpl" && !f.unreg && f.v.empty();
        while ((list || impl) && i + 1 < out.size() && out[i + 1].pos && from[i + 1] != -2) {
            ++i;
            f.v.push_back(out[i].v[0]); f.t.push_back(out[i].t[0]);
            if (from[i] >= 0) gone[from[i]] = true;
            impl = false;
        }
    }
    if (s.names) { int n = 0; for (auto& f : fin) if (f.pos) { f.key = n == 0 ? "first" : "others"; ++n; } }
    for (size_t i = 0; i < items.size(); ++i) if (!gone[i]) rest.push_back(items[i]);
    return fin;
}
static std::string K(const std::string& s) { return s; }
static std::string K(const std::wstring& s) { return narrow(s); }
template<class C> static void parse(const Stage& s, po::options_description& d, const po::positional_options_description& pos, const Strs& args, int style, long boom,
                                    std::vector<Found>& found, Strs& left, Strs& unreg, std::unique_ptr<po::parsed_options>* keep, std::unique_ptr<po::wparsed_options>* wkeep) {
    typedef std::basic_string<C> S;
    std::vector<S> a; for (auto& x : args) a.push_back(from_n<C>(x));
    long calls = 0;
    std::string mine = "+" + L(s.m);
    std::unique_ptr<po::basic_parsed_options<C> > r;
    lib([&] {
        po::basic_command_line_parser<C> q(a); q.options(d).style(style).allow_unregistered();
        if (s.names) q.positional(pos);
        if (s.hook == 1) q.extra_parser([&](const std::string& t) { Pause p; if (++calls == boom) { tally("fault.hook_throw"); throw Boom(); } return t.compare(0, 2, mine) == 0 ? std::make_pair(L(s.m) + "lpha", t.substr(2)) : std::make_pair(std::string(), std::string()); });
        if (s.hook == 2) q.extra_style_parser([&](std::vector<std::string>& v) { Pause p; if (++calls == boom) { tally("fault.hook_throw"); throw Boom(); } std::vector<po::option> r; if (v[0].compare(0, 2, mine) == 0) { po::option o(L(s.m) + "lpha", Strs(1, v[0].substr(2))); o.original_tokens.push_back(v[0]); r.push_back(o); v.erase(v.begin()); } return r; });
        r.reset(new po::basic_parsed_options<C>(q.run())); return 0; });
    std::vector<S> u = lib([&] { return po::collect_unrecognized(r->options, po::include_positional); }), x = lib([&] { return po::collect_unrecognized(r->options, po::exclude_positional); });
    found.clear(); left.clear(); unreg.clear();
    for (auto& o : r->options) { Found f; f.key = o.string_key; f.unreg = o.unregistered; f.pos = o.position_key != -1; for (auto& v : o.value) f.v.push_back(K(v)); for (auto& v : o.original_tokens) f.t.push_back(K(v)); found.push_back(f); }
    // named options say which case rule they follow
    for (auto& o : r->options) if (!o.unregistered && o.position_key == -1 && o.string_key.size() > 1) {
        bool rule = o.string_key[0] == '-' && o.string_key.size() == 2 ? sci : ci;
        if (o.case_insensitive != rule) violate("case-rule-differs", "option " + o.string_key + (rule ? " does not ignore case" : " ignores case"));
    }
    for (auto& y : u) left.push_back(K(y)); for (auto& y : x) unreg.push_back(K(y));
    (void)keep; (void)wkeep;
}
static void execute(const Plan& p) {
    step_limit = 100000000;
    guess = ci = dis = sci = false;
    CvtScript local; install(&local); // the local encoding is UTF-8
    AtExit<std::function<void()> > reset([] { std::locale::global(std::locale::classic()); });
    if (const Line* l = p.find("style")) { guess = l->num(0); ci = l->num(1); dis = l->num(2); sci = l->num(3); }
    using namespace po::command_line_style;
    int style = unix_style & ~allow_guessing;
    if (guess) style |= allow_guessing; if (ci) style |= long_case_insensitive; if (sci) style |= short_case_insensitive; if (dis) style |= allow_long_disguise;
    std::vector<Item> items; bool term = false;
    std::set<std::string> once;
    for (auto& l : p.lines) if (l.op == "item") {
        Item it = make(l);
        if (it.kind < 0 || (it.kind == TERM && term) || (term && it.kind != WORD)) continue;
        if (it.kind == WORD && !term && !it.t[0].empty() && (it.t[0][0] == '-' || it.t[0][0] == '+')) continue;
        if (it.kind == FLAG || it.kind == GROUP || it.kind == IMPL || it.kind == IMPL_ADJ) { if (!once.insert(N(it.kind == FLAG || it.kind == GROUP ? 1 : 2) + L(it.m)).second) continue; }
        if (it.kind == EXT && guess && it.m < NM) continue; // abbreviations would be in doubt
        if (dis && it.kind == GROUP) continue; // "-Aw" might be a long name as well
        if (it.kind == TERM) term = true;
        items.push_back(it);
    }
    std::vector<Stage> stages;
    for (auto& l : p.lines) {
        if (l.op == "stage" && stages.size() < 8) { Stage s; s.m = (int)std::min((long)NM - 1, std::max(0L, l.num(0))); s.wide = l.num(1); s.hook = (int)l.num(2); s.names = l.num(3); s.oom = -1; s.oom_n = 1; s.boom = 0; stages.push_back(s); }
        if (l.op == "oom" && !stages.empty()) { stages.back().oom = l.num(0); stages.back().oom_n = l.num(1); }
        if (l.op == "boom" && !stages.empty()) stages.back().boom = l.num(0);
    }
    Strs args; for (auto& it : items) args.insert(args.end(), it.t.begin(), it.t.end());
    if (stages.size() > 1 && !items.empty()) nontrivial();
    struct Module { std::unique_ptr<po::options_description> d; po::variables_map v; std::map<std::string, Strs> e; };
    std::map<int, Module> mods;
    po::positional_options_description pos; pos.add("first", 1).add("others", -1);
    for (size_t n = 0; n < stages.size(); ++n) {
        const Stage& s = stages[n];
        Module& M = mods[s.m];
        if (!M.d) lib([&] {
            M.d.reset(new po::options_description("Module")); std::string c = L(s.m);
            auto list = [] { return po::value<Strs>()->composing(); };
            M.d->add_options()((c + "lpha," + c).c_str(), list(), "")((c + "long-name").c_str(), list(), "")((c + "flag," + flag_letter(s.m)).c_str(), "")((c + "quiet," + (char)('w' + s.m)).c_str(), po::bool_switch(), "")
                ((c + "ist").c_str(), list()->multitoken(), "")((c + "mpl").c_str(), list()->implicit_value(Strs(1, "I"), "I"), "");
            if (!guess) { std::string x = L((s.m + 1) % NM) + "lp"; M.d->add_options()((x + "ha-x").c_str(), list(), "")(x.c_str(), list(), ""); } // longer and shorter than a name of the next module
            return 0; });
        std::vector<Item> rest; std::vector<Found> e = model(s, items, rest);
        Strs el, eu; for (auto& f : e) { if (f.unreg || f.pos) el.insert(el.end(), f.t.begin(), f.t.end()); if (f.unreg) eu.insert(eu.end(), f.t.begin(), f.t.end()); }
        std::vector<Found> found; Strs left, unreg;
        auto once_more = [&](const char* what) {
            std::string w = "stage " + N((long long)n) + " (module " + L(s.m) + (s.wide ? ", wide" : "") + "), " + what + ", of " + show(args) + ": ";
            if (show(found) != show(e)) violate("stage-differs", w + "found " + show(found) + " instead of " + show(e));
            if (left != el) violate("left-over-differs", w + "left " + show(left) + " instead of " + show(el));
            if (unreg != eu) violate("unregistered-differs", w + "unregistered " + show(unreg) + " instead of " + show(eu));
        };
        auto go = [&](long boom) { if (s.wide) parse<wchar_t>(s, *M.d, pos, args, style, boom, found, left, unreg, 0, 0); else parse<char>(s, *M.d, pos, args, style, boom, found, left, unreg, 0, 0); };
        if (s.oom >= 0) {
            Oom o((u64)s.oom, (u64)s.oom_n); bool ok = true;
            try { go(0); } catch (std::bad_alloc&) { ok = false; } catch (std::exception& x) { o.off(); violate("wrong-error", std::string("out of memory, but the error is ") + x.what()); }
            o.off(); if (mem.failed) tally("fault.out_of_memory", mem.failed);
            if (ok) once_more("while memory was short");
        }
        if (s.boom > 0 && s.hook) { bool ok = true; try { go(s.boom); } catch (Boom&) { ok = false; } catch (std::exception& x) { violate("wrong-error", std::string("the hook throws, but the error is ") + x.what()); } if (ok) once_more("with a hook ready to throw"); }
        try { go(0); } catch (std::exception& x) { violate("rejected", "stage " + N((long long)n) + " of " + show(args) + ": " + x.what()); }
        once_more("repeated");
        // every token is part of one recognised option or left over; the order is kept
        tally("tokens", args.size());
        ev("stage " + L(s.m) + " " + N((long long)found.size()) + " left " + show(left));
        for (auto& it : items) state(mix((u64)it.kind * 8 + (it.m == s.m), (u64)s.hook * 4 + s.wide * 2 + guess));
        // what is stored in the end
        try {
            if (s.wide) { std::vector<std::wstring> a; for (auto& x : args) a.push_back(widen(x)); lib([&] { po::wcommand_line_parser q(a); q.options(*M.d).style(style).allow_unregistered(); po::store(q.run(), M.v); return 0; }); }
            else if (!s.hook) lib([&] { po::command_line_parser q(args); q.options(*M.d).style(style).allow_unregistered(); po::store(q.run(), M.v); return 0; });
        } catch (std::exception& x) { violate("store-rejected", "stage " + N((long long)n) + " of " + show(args) + ": " + x.what()); }
        if (s.wide || !s.hook) for (auto& f : e) if (!f.unreg && !f.pos) { Strs& v = M.e[f.key]; if (f.v.empty() && f.key == L(s.m) + "mpl") v.push_back("I"); v.insert(v.end(), f.v.begin(), f.v.end()); }
        items = rest; args = left;
    }
    for (auto& m : mods) for (const char* k : {"lpha", "long-name", "ist", "mpl"}) {
        std::string key = L(m.first) + k; Strs got;
        const po::variable_value& v = lib([&]() -> const po::variable_value& { return m.second.v[key]; });
        if (!v.empty()) got = v.as<Strs>();
        if (got != m.second.e[key]) violate("stored-differs", "module " + L(m.first) + " holds " + key + " = " + show(got) + " instead of " + show(m.second.e[key]));
    }
}
const Property sim::PROPERTY = {"C19", generate, execute};
