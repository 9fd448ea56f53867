// C14: parsing has no side effects, and user hooks can abort it safely.
// Command lines are built from segments whose meaning is known by construction; user hooks
// (a pair hook, a style hook, a name mapping) are scripted: they recognise their own
// segments, throw at the k-th call, or run another parse in between. After every parse the
// table, the targets and the call counters of value semantics are compared.
#include "cvt.hpp"
#include <boost/program_options.hpp>
#include <climits>
#include <memory>
#include <sstream>
extern char** environ;
namespace po = boost::program_options;
using namespace sim;
namespace cs = boost::program_options::command_line_style;
typedef std::vector<std::string> VS;

static const unsigned INF = 32000;
static const struct { unsigned mn, mx; } KIND[] = {{0, 0}, {1, 1}, {1, INF}, {0, 1}, {2, 2}, {0, INF}, {1, 3}};
static const int NKIND = 7;

static std::string value_text(Rng& r) {
    static const char* f[] = {"a", "7", "val", "x=y", "\xc3\xa9", " ", "", "/", "-", "'", "\"q\"", "#", "*", "long value text", "=", ","};
    std::string s; int n = r.range(0, 3);
    for (int i = 0; i < n; ++i) s += f[r.below(16)];
    if (r.chance(1, 20)) { size_t n = r.loguniform(800); while (s.size() < n) s += f[r.below(9)]; }
    return s;
}
static Plan generate(Rng& r, int tier) {
    Plan p;
    int no = r.range(1, 8);
    for (int i = 0; i < no; ++i) p.add("opt", {N(r.range(0, NKIND - 1)), N(r.range(0, 3)), N(r.range(0, 1)), N(r.range(0, 3))});
    if (r.chance(1, 2)) for (int i = r.range(1, 3); i > 0; --i) p.add("pos", {N(r.range(0, no)), N(r.chance(1, 3) ? -1 : r.range(1, 3))});
    int nc = r.range(1, tier ? 5 : 3);
    for (int c = 0; c < nc; ++c) {
        if (r.chance(1, 7)) { p.add("cfg", {N(r.range(0, 1)), N(r.range(0, 2))}); }
        else if (r.chance(1, 7)) { p.add("env", {N(r.range(0, 2))}); }
        else p.add("cmd", {N(r.range(0, 5)), N(r.range(0, 1)), N(r.range(0, 2)), N(r.range(0, 7)), N(r.range(0, 5))});
        int ns = (int)r.loguniform(tier ? 30 : 14);
        for (int i = 0; i < ns; ++i) {
            static const char* k[] = {"L", "L", "S", "S", "G", "P", "P", "E", "E", "H", "H", "U", "L", "P", "W"};
            const char* w = k[r.below(15)];
            p.add("seg", {w, N(r.range(0, no - 1)), N(r.range(0, 3)), value_text(r), N(r.range(0, no - 1)), N(r.range(0, 4)), N(r.range(0, 3))});
        }
        if (r.chance(1, 6)) p.add("seg", {"B", N(r.range(0, no - 1)), N(r.range(0, 3)), value_text(r)});
        if (r.chance(1, 5)) { p.add("seg", {"T"}); for (int i = r.range(0, 3); i > 0; --i) p.add("seg", {"P", "0", N(r.range(0, 3)), value_text(r)}); }
    }
    int nr = r.range(2, tier ? 10 : 6);
    for (int i = 0; i < nr; ++i) {
        long k = r.chance(1, 2) ? (long)r.loguniform(40) : -1;
        p.add("run", {N(r.range(0, nc - 1)), N(k), N(r.range(0, 4)), N(r.chance(1, 3) ? (long)r.loguniform(20) : -1), N(r.range(0, nc - 1)), N(r.range(0, 3)), N(r.chance(1, 4) ? (long)r.loguniform(300) : -1), N(r.chance(1, 3) ? 1000000 : r.range(1, 3))});
    }
    return p;
}

// ---- what the user supplies
static u64 n_parse, n_default, n_notify, n_validate;
static std::string mutable_log;
struct Spy : po::value_semantic {
    unsigned mn, mx; bool req;
    Spy(unsigned a, unsigned b, bool q) : mn(a), mx(b), req(q) {}
    std::string name() const { return "spy"; }
    unsigned min_tokens() const { return mn; }
    unsigned max_tokens() const { return mx; }
    bool is_composing() const { return false; }
    bool is_required() const { return req; }
    void parse(boost::any&, const VS&, bool) const { ++n_parse; }
    bool apply_default(boost::any&) const { ++n_default; return false; }
    void notify(const boost::any&) const { ++n_notify; }
};
struct V { std::string s; };
static void validate(boost::any& v, const VS& xs, V*, int) { ++n_validate; V x; x.s = xs.empty() ? "" : xs[0]; v = x; }
static std::ostream& operator<<(std::ostream& o, const V&) { return o << "V"; }

struct HookErr { int tag; };
struct HookStd : std::runtime_error { int tag; HookStd(int t) : std::runtime_error("hook"), tag(t) {} };
struct HookPo : po::error { int tag; HookPo(int t) : po::error("hook po"), tag(t) {} };

struct Item { std::string key; VS values, orig; bool unreg, named; bool tail; };
struct Cmd {
    char type;             // c, f, e
    int style; bool unreg, wide, usepos; int hooks, form;
    VS tokens; std::vector<size_t> heads; std::map<std::string, std::pair<std::string, std::string> > pairs;
    struct HS { size_t eat; std::vector<Item> give; }; std::map<std::string, HS> styles;
    std::vector<Item> want; std::string err, err_name;
    std::string text; std::vector<std::string> env;
    std::string first; bool have_first;
};

static const char* LONG[] = {"alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel", "india", "juliet"};

static std::string render(const po::option& o, bool named) {
    std::string s = o.string_key + "|" + (o.string_key.empty() ? "" : "") + (o.unregistered ? "U" : "-") + "|";
    (void)named;
    for (auto& v : o.value) s += "<" + v + ">";
    s += "|";
    for (auto& v : o.original_tokens) s += "[" + v + "]";
    return s + "|" + N(o.position_key) + "\n";
}
struct Ctx {
    std::vector<int> kind; std::vector<bool> sh; po::options_description desc; po::positional_options_description pos; long pos_total; std::vector<std::pair<std::string, long> > posn;
    std::vector<std::unique_ptr<std::string> > targets; std::vector<std::unique_ptr<V> > vtargets;
    std::vector<Cmd> cmds;
    std::string snapshot; int depth;
    Ctx() : desc("table"), pos_total(0), depth(0) {}
    std::string snap() {
        std::ostringstream o; desc.print(o); std::string s = o.str();
        for (auto& d : desc.options()) s += N((long long)(size_t)d.get()) + d->format_name() + d->description() + d->format_parameter() + N(d->semantic()->min_tokens()) + "," + N(d->semantic()->max_tokens()) + d->key("?") + ";";
        for (unsigned i = 0; i < 5 && i < pos.max_total_count(); ++i) s += pos.name_for_position(i) + N(pos.max_total_count());
        return s;
    }
    std::string canon(int i) const { return LONG[i]; }
};
struct Script { // of one parse
    Ctx& c; Cmd& d; long throw_at; int throw_kind; long nest_at; size_t nest_cmd; u64 calls; bool thrown; int tag;
    size_t head; // next place where the style hook must be asked
    bool has_style;
    std::vector<size_t> pair_heads; size_t pair_head; // the same for the pair hook: what the style hook did not take
    void find_pair_heads() { pair_head = 0; for (size_t h : d.heads) if (!has_style || !d.styles.count(d.tokens[h])) pair_heads.push_back(h); }
};
static void run_one(Ctx& c, size_t idx, long throw_at, int throw_kind, long nest_at, size_t nest_cmd, int via, long oom_at = -1, long oom_n = 1);

static void hook_called(Script& s) {
    u64 k = s.calls++;
    if (s.nest_at >= 0 && (u64)s.nest_at == k && s.c.depth == 1) { int keep = tl.lib; tl.lib = 0; run_one(s.c, s.nest_cmd, -1, 0, -1, 0, 0); tl.lib = keep; tally("parses inside a hook"); }
    if (s.throw_at >= 0 && (u64)s.throw_at == k) {
        s.thrown = true; tally("fault.hook throws");
        switch (s.throw_kind % 5) { case 0: throw HookErr{s.tag}; case 1: throw HookStd(s.tag); case 2: throw HookPo(s.tag); case 3: throw s.tag; default: throw std::bad_alloc(); }
    }
}
// is this call in order: all that is left from the next place on, or one value looked at in passing
static void check_view(Script& s, const VS& args, bool style) {
    const Cmd& d = s.d;
    const std::vector<size_t>& heads = style ? d.heads : s.pair_heads; size_t& at = style ? s.head : s.pair_head;
    if (at < heads.size()) {
        size_t h = heads[at];
        if (style ? VS(d.tokens.begin() + (long)h, d.tokens.end()) == args : args.size() == 1 && args[0] == d.tokens[h]) { ++at; return; }
    }
    if (args.size() == 1) // a token which follows an option, checked for being an option itself
        for (size_t i = 0; i < d.tokens.size(); ++i) if (d.tokens[i] == args[0] && std::find(d.heads.begin(), d.heads.end(), i) == d.heads.end()) return;
    std::string seen; for (auto& a : args) seen += "<" + a + ">";
    std::string exp; if (at < heads.size()) for (size_t i = heads[at]; i < d.tokens.size(); ++i) exp += "<" + d.tokens[i] + ">";
    violate("hook-view", std::string(style ? "the style hook" : "the pair hook") + " was called with " + seen + " when " + (exp.empty() ? "nothing" : exp) + " was left");
}

static std::string narrow_opts(const po::parsed_options& p) { std::string s; for (auto& o : p.options) s += render(o, true); return s; }
static po::parsed_options narrow_parsed(const po::wparsed_options& p) {
    po::parsed_options r(p.description, p.m_options_prefix);
    for (auto& w : p.options) {
        po::option o; o.string_key = w.string_key; o.position_key = w.position_key; o.unregistered = w.unregistered; o.case_insensitive = w.case_insensitive;
        for (auto& v : w.value) o.value.push_back(narrow(v));
        for (auto& v : w.original_tokens) o.original_tokens.push_back(narrow(v));
        r.options.push_back(o);
    }
    return r;
}
template<class P, class A> static auto run_parser(Ctx& c, Cmd& d, Script& s, const A& args, int via) -> decltype(std::declval<P>().run()) {
    P p(args);
    p.options(c.desc);
    if (d.style >= 0) p.style(d.style);
    if (d.unreg) p.allow_unregistered();
    if (d.usepos) p.positional(c.pos);
    if (d.hooks & 1) p.extra_parser([&c, &d, &s](const std::string& t) -> std::pair<std::string, std::string> {
        Pause pause; Script& x = s;
        check_view(x, VS(1, t), false);
        hook_called(x);
        auto i = d.pairs.find(t); if (i == d.pairs.end()) return std::make_pair(std::string(), std::string());
        return i->second;
    });
    if (d.hooks & 2) p.extra_style_parser([&c, &d, &s](VS& a) -> std::vector<po::option> {
        Pause pause; Script& x = s;
        check_view(x, a, true);
        hook_called(x);
        std::vector<po::option> r;
        if (a.empty()) violate("hook-view", "style hook called with nothing");
        auto i = d.styles.find(a[0]); if (i == d.styles.end()) return r;
        for (size_t k = 0; k < i->second.eat && !a.empty(); ++k) a.erase(a.begin());
        for (auto& it : i->second.give) { po::option o; o.string_key = it.key; o.value = it.values; o.original_tokens = it.orig; r.push_back(o); }
        return r;
    });
    if (via == 1) { P copy(p); return copy.run(); }
    return p.run();
}
static void run_one(Ctx& c, size_t idx, long throw_at, int throw_kind, long nest_at, size_t nest_cmd, int via, long oom_at, long oom_n) {
    Cmd& d = c.cmds[idx];
    ++c.depth; struct D { int& d; ~D() { --d; } } dd = {c.depth};
    std::string label = "parse " + N((long long)idx);
    Script s = {c, d, throw_at, throw_kind, nest_at, nest_cmd, 0, false, 4711 + (int)idx, 0, (d.hooks & 2) != 0, std::vector<size_t>(), 0};
    s.find_pair_heads();
    u64 before[4] = {n_parse, n_default, n_notify, n_validate};
    std::string got; std::string err, err_name; int tag = -1; const char* ktype = 0;
    std::vector<std::string> keep = d.tokens;
    if (c.depth == 1) mem.failed = 0;
    bool stream_bad = false; // reading a line ran out of memory: reported by the stream
    std::unique_ptr<Oom> oom(oom_at >= 0 ? new Oom((u64)oom_at, (u64)std::max(1L, oom_n)) : 0);
    try {
        if (d.type == 'c') {
            po::parsed_options r(&c.desc);
            if (d.wide) {
                std::vector<std::wstring> w; for (auto& t : d.tokens) w.push_back(widen(t));
                auto w2 = w;
                if (via == 2) { std::vector<const wchar_t*> av(1, L"prog"); for (auto& t : w) av.push_back(t.c_str()); r = narrow_parsed(lib([&] { return run_parser<po::wcommand_line_parser>(c, d, s, po::wcommand_line_parser((int)av.size(), &av[0]), 0); })); }
                else r = narrow_parsed(lib([&] { return run_parser<po::wcommand_line_parser>(c, d, s, w, via); }));
                if (w != w2) violate("input-changed", label);
            } else if (via == 2) {
                std::vector<const char*> av(1, "prog"); for (auto& t : d.tokens) av.push_back(t.c_str());
                r = lib([&] { return run_parser<po::command_line_parser>(c, d, s, po::command_line_parser((int)av.size(), &av[0]), 0); });
            } else if (via == 3 && !d.unreg && !d.usepos && !(d.hooks & 2)) {
                std::vector<const char*> av(1, "prog"); for (auto& t : d.tokens) av.push_back(t.c_str());
                boost::function1<std::pair<std::string, std::string>, const std::string&> ext;
                if (d.hooks & 1) ext = [&](const std::string& t) -> std::pair<std::string, std::string> { Pause pause; check_view(s, VS(1, t), false); hook_called(s); auto i = d.pairs.find(t); if (i == d.pairs.end()) return std::make_pair(std::string(), std::string()); return i->second; };
                r = lib([&] { return po::parse_command_line((int)av.size(), &av[0], c.desc, d.style < 0 ? 0 : d.style, ext); });
            } else r = lib([&] { return run_parser<po::command_line_parser>(c, d, s, d.tokens, via); });
            got = narrow_opts(r);
            if (r.description != &c.desc) violate("result-wrong", label + ": parsed options refer to another description");
            if (!d.wide) for (auto& o : r.options) if (!o.string_key.empty()) {
                bool li = d.style >= 0 && (d.style & cs::long_case_insensitive), si = d.style >= 0 && (d.style & cs::short_case_insensitive);
                bool lng = o.string_key.size() > 2 || (o.string_key.size() > 1 && o.string_key[0] != '-');
                if (o.case_insensitive != (lng ? li : si)) violate("result-wrong", label + ": case sensitivity of " + o.string_key);
            }
        } else if (d.type == 'f') {
            if (d.wide) { std::wistringstream is(widen(d.text)); got = narrow_opts(narrow_parsed(lib([&] { return po::parse_config_file(is, c.desc, d.unreg); }))); stream_bad = is.bad(); }
            else { std::istringstream is(d.text); got = narrow_opts(lib([&] { return po::parse_config_file(is, c.desc, d.unreg); })); stream_bad = is.bad(); }
        } else {
            std::vector<std::string> e = d.env; std::vector<char*> ptr; for (auto& x : e) ptr.push_back(&x[0]); ptr.push_back(0);
            struct B { char** k; B() : k(environ) {} ~B() { environ = k; } } back;
            environ = &ptr[0];
            got = narrow_opts(lib([&] { return po::parse_environment(c.desc, [&](std::string n) -> std::string { Pause pause; hook_called(s); return n.compare(0, 2, "M_") == 0 ? n.substr(2) : std::string(); }); }));
            if (e != d.env) violate("input-changed", label);
        }
    }
    catch (HookErr& e) { tag = e.tag; ktype = "HookErr"; }
    catch (HookStd& e) { tag = e.tag; ktype = "HookStd"; }
    catch (HookPo& e) { tag = e.tag; ktype = "HookPo"; }
    catch (int e) { tag = e; ktype = "int"; }
    catch (std::bad_alloc& e) { tag = s.tag; ktype = "bad_alloc"; }
    catch (po::too_many_positional_options_error&) { err = "too many positional"; }
    catch (po::unknown_option& e) { err = "unknown"; err_name = e.get_option_name(); }
    catch (po::error& e) { err = std::string("other: ") + e.what(); }
    catch (std::exception& e) { err = std::string("foreign: ") + e.what(); }
    oom.reset();
    bool starved = mem.failed != 0 && ktype && std::string(ktype) == "bad_alloc";
    if (stream_bad && mem.failed && err.empty()) starved = true;
    if (c.depth == 1 && mem.failed) tally("fault.oom", mem.failed);
    static const char* names[] = {"HookErr", "HookStd", "HookPo", "int", "bad_alloc"};
    ev(label + " calls " + N((long long)s.calls) + (ktype ? std::string(" aborted by ") + ktype : err.empty() ? " ok " + hex(hash_str(got)) : " error " + err));
    state(mix(mix((u64)d.type, (u64)d.hooks), mix(s.thrown ? 10 + (u64)throw_kind % 5 : err.empty() ? 0 : 1, mix((u64)d.style, s.calls > 20 ? 20 : s.calls))));
    if (s.calls) nontrivial();
    if (s.thrown || !err.empty()) nontrivial();
    // purity
    if (n_parse != before[0] || n_validate != before[3]) violate("validator-run", label);
    if (n_default != before[1]) violate("default-applied", label);
    if (n_notify != before[2]) violate("notifier-run", label);
    for (auto& t : c.targets) if (*t != "untouched") violate("target-written", label + ": " + *t);
    for (auto& t : c.vtargets) if (t->s != "untouched") violate("target-written", label + ": " + t->s);
    if (keep != d.tokens) violate("input-changed", label);
    if (c.snap() != c.snapshot) violate("table-changed", label + ":\n" + c.snap() + "instead of\n" + c.snapshot);
    // outcome
    if (starved) { tally("parses aborted by memory"); nontrivial(); return; }
    if (s.thrown) {
        if (!ktype || std::string(ktype) != names[throw_kind % 5] || tag != s.tag) violate("hook-exception", label + ": " + names[throw_kind % 5] + " was thrown, the caller got " + (ktype ? ktype : err.empty() ? "a result" : err.c_str()));
        return;
    }
    if (ktype) violate("hook-exception", label + ": the caller got " + std::string(ktype) + " though nothing was thrown");
    if (d.type == 'c') {
        std::string exp;
        if (d.err.empty()) {
            // options take following positional arguments they have room for
            std::vector<Item> w = d.want, r;
            auto spec = [&](const Item& it, unsigned& mn, unsigned& mx) { if (!it.named || it.unreg) return false; for (size_t i = 0; i < c.kind.size(); ++i) if (it.key == LONG[i]) { mn = KIND[c.kind[i]].mn; mx = KIND[c.kind[i]].mx; return true; } return false; };
            for (size_t i = 0; i < w.size(); ++i) {
                r.push_back(w[i]); unsigned mn, mx;
                if (!spec(w[i], mn, mx) || mn >= mx || w[i].values.size() >= mx) continue;
                size_t room = mx - w[i].values.size(), j = i + 1;
                for (; room && j < w.size() && !w[j].named && !w[j].tail && w[j].values.size() == 1; --room, ++j) { r.back().values.push_back(w[j].values[0]); r.back().orig.insert(r.back().orig.end(), w[j].orig.begin(), w[j].orig.end()); }
                i = j - 1;
            }
            int pk = 0; std::string perr;
            for (auto& it : r) {
                po::option o; o.string_key = it.key; o.value = it.values; o.original_tokens = it.orig; o.unregistered = it.unreg;
                if (!it.named) {
                    o.position_key = pk;
                    if (d.usepos) {
                        long n = pk; bool ok = false;
                        for (auto& q : c.posn) { if (q.second < 0 || n < q.second) { o.string_key = q.first; ok = true; break; } n -= q.second; }
                        if (!ok) perr = "too many positional";
                    }
                    ++pk;
                }
                exp += render(o, true);
            }
            if (!perr.empty()) { if (err != perr) violate("result-wrong", label + ": more positional arguments than names, got " + (err.empty() ? got : err)); exp = perr; got = err; err.clear(); }
        } else {
            if (err != d.err || err_name != d.err_name) violate("result-wrong", label + ": expected error " + d.err + " " + d.err_name + ", got " + (err.empty() ? "none" : err + " " + err_name));
            exp = got = err; err.clear();
        }
        if (!err.empty()) violate("result-wrong", label + ": unexpected error " + err);
        if (got != exp) violate("result-wrong", label + ":\n" + got + "instead of\n" + exp);
        if (d.err.empty()) {
            if (s.has_style && s.head != d.heads.size()) violate("hook-view", label + ": the style hook was asked at " + N((long long)s.head) + " of " + N((long long)d.heads.size()) + " places");
            if ((d.hooks & 1) && s.pair_head != s.pair_heads.size()) violate("hook-view", label + ": the pair hook was asked at " + N((long long)s.pair_head) + " of " + N((long long)s.pair_heads.size()) + " places");
        }
    } else {
        std::string exp;
        if (d.err.empty()) for (auto& it : d.want) { po::option o; o.string_key = it.key; o.value = it.values; o.original_tokens = it.orig; o.unregistered = it.unreg; exp += render(o, true); }
        else exp = d.err + d.err_name;
        std::string g = err.empty() ? got : err + err_name;
        if (g != exp) violate("result-wrong", label + ":\n" + g + "\ninstead of\n" + exp);
        got = g;
    }
    if (d.have_first && got != d.first) violate("result-differs", label + ": the same input gave another result earlier");
    d.first = got; d.have_first = true;
}

static void build(Ctx& c, const Plan& p) {
    Cmd* d = 0; size_t serial = 0; bool tail = false;
    for (auto& l : p.lines) {
        if (l.op == "opt" && c.kind.size() < 10) { c.kind.push_back((int)((unsigned long)l.num(0) % NKIND)); c.sh.push_back(l.num(2) != 0); }
    }
    size_t no = c.kind.size();
    size_t k = 0;
    for (auto& l : p.lines) if (l.op == "opt" && k < no) {
        std::string spec = LONG[k]; if (c.sh[k]) spec += std::string(",") + LONG[k][0];
        int kd = c.kind[k]; const po::value_semantic* sem = 0;
        bool deco = l.num(3) & 1, req = (l.num(3) & 2) != 0;
        if (l.num(1) == 1 && (kd == 1 || kd == 3 || kd == 2)) {
            c.targets.push_back(std::unique_ptr<std::string>(new std::string("untouched")));
            if (kd == 2) { auto* v = po::value<std::vector<std::string> >()->multitoken()->notifier([](const std::vector<std::string>&) { ++n_notify; }); if (deco) v->composing(); sem = v; }
            else { auto* v = po::value<std::string>(c.targets.back().get())->notifier([](const std::string&) { ++n_notify; }); if (kd == 3) v->implicit_value("imp"); if (deco) v->default_value("def"); if (req) v->required(); sem = v; }
        } else if (l.num(1) == 2 && (kd == 1 || kd == 3)) {
            c.vtargets.push_back(std::unique_ptr<V>(new V)); c.vtargets.back()->s = "untouched"; V dv; dv.s = "d";
            auto* v = po::value<V>(c.vtargets.back().get())->notifier([](const V&) { ++n_notify; }); if (kd == 3) v->implicit_value(dv); if (deco) v->default_value(dv); if (req) v->required(); sem = v;
        } else sem = new Spy(KIND[kd].mn, KIND[kd].mx, req);
        c.desc.add_options()(spec.c_str(), sem, (std::string("description of ") + LONG[k]).c_str());
        ++k;
    }
    for (auto& l : p.lines) if (l.op == "pos") {
        if (!c.posn.empty() && c.posn.back().second < 0) continue;
        long n = l.num(1); if (n == 0 || n > 5) n = 1; if (n < 0) n = -1;
        size_t i = (unsigned long)l.num(0); std::string nm = i < no ? LONG[i] : "posname";
        c.pos.add(nm.c_str(), (int)n); c.posn.push_back(std::make_pair(nm, n));
    }
    for (auto& l : p.lines) {
        if (l.op == "cmd" || l.op == "cfg" || l.op == "env") {
            c.cmds.push_back(Cmd()); d = &c.cmds.back(); tail = false; d->have_first = false; d->hooks = 0; d->form = 0; d->style = -1; d->usepos = false; d->wide = false; d->unreg = false;
            d->type = l.op == "cmd" ? 'c' : l.op == "cfg" ? 'f' : 'e';
            if (d->type == 'c') {
                static const int st[] = {-1, cs::unix_style, cs::unix_style & ~cs::allow_guessing, cs::unix_style | cs::allow_long_disguise, cs::unix_style | cs::case_insensitive, cs::unix_style | cs::allow_slash_for_short};
                d->style = st[(unsigned long)l.num(0) % 6]; d->unreg = l.num(1) != 0; d->usepos = l.num(2) == 1; d->hooks = (int)(l.num(3) & 3); d->wide = (l.num(3) & 4) != 0; d->form = (int)l.num(4);
            } else if (d->type == 'f') { d->unreg = l.num(0) != 0; d->wide = l.num(1) == 2; }
            continue;
        }
        if (l.op != "seg" || !d || !no) continue;
        Cmd& D = *d; std::string k0 = l.arg(0); size_t oi = (unsigned long)l.num(1) % no; int form = (int)l.num(2) & 3; std::string v = "v" + N((long long)serial++) + l.arg(3);
        if (D.wide) v = narrow(widen(v));
        std::string name = LONG[oi]; unsigned mn = KIND[c.kind[oi]].mn, mx = KIND[c.kind[oi]].mx;
        if (D.type == 'f') { // configuration lines
            if (!D.err.empty()) continue;
            std::string t; for (char ch : v) if (ch != '#' && ch != '\n' && ch != '\r') t += ch; while (!t.empty() && t[t.size() - 1] == ' ') t.erase(t.size() - 1);
            if (k0 == "B" && !D.unreg) { D.text += "unknown = 1\n"; D.err = "unknown"; D.err_name = "unknown"; continue; }
            if (k0 == "U") { if (!D.unreg) continue; name = "unk" + N((long long)serial); }
            D.text += name + (form & 1 ? " = " : "=") + t + (form & 2 ? "  # note\n" : "\n");
            Item it; it.key = name; it.values.push_back(t); it.orig.push_back(name); it.orig.push_back(t); it.unreg = k0 == "U"; it.named = true; it.tail = false; D.want.push_back(it);
            continue;
        }
        if (D.type == 'e') {
            if (k0 == "U" || k0 == "P") { D.env.push_back("X_" + name + "=" + v); continue; }
            if (k0 == "B") { D.env.push_back("NOEQUALS"); continue; }
            D.env.push_back("M_" + name + "=" + v);
            Item it; it.key = name; it.values.push_back(v); it.unreg = false; it.named = true; it.tail = false; D.want.push_back(it);
            continue;
        }
        if (!D.err.empty()) { D.tokens.push_back(tail ? v : "p" + v); if (!tail) D.heads.push_back(D.tokens.size() - 1); continue; }
        Item it; it.unreg = false; it.named = true; it.tail = false;
        auto head = [&](const std::string& t) { D.heads.push_back(D.tokens.size()); D.tokens.push_back(t); };
        auto fill = [&](Item& x, unsigned need) { for (size_t j = 0; x.values.size() < need; ++j) { std::string w = v + "+" + N((long long)j); D.tokens.push_back(w); x.values.push_back(w); x.orig.push_back(w); } };
        if (tail) { D.tokens.push_back(v); it.named = false; it.tail = true; it.values.push_back(v); it.orig.push_back(v); D.want.push_back(it); continue; }
        if (k0 == "T") { head("--"); tail = true; continue; }
        if (k0 == "W") { // a token of no or one character, as it is or recognised by a hook
            static const char* few[] = {"", "-", "=", "x", "+", "@", "", "q"};
            std::string t = few[(unsigned long)l.num(4) % 8];
            bool seen = D.pairs.count(t) || D.styles.count(t), used = std::find(D.tokens.begin(), D.tokens.end(), t) != D.tokens.end();
            if (seen) continue;
            int take = used ? 0 : form;
            if (take == 1 && (D.hooks & 1)) {
                it.key = name; if (mx > 0) it.values.push_back(v + "hook");
                D.pairs[t] = std::make_pair(name, mx > 0 ? v + "hook" : "");
                head(t); fill(it, mn); D.want.push_back(it); continue;
            }
            if (take == 2 && (D.hooks & 2)) {
                Cmd::HS h; h.eat = 1; Item x; x.unreg = false; x.named = true; x.tail = false; x.key = name; x.orig.push_back(t);
                for (unsigned q = 0; q < mn; ++q) x.values.push_back(v + N((long long)q));
                h.give.push_back(x); D.styles[t] = h; head(t); D.want.push_back(x); continue;
            }
            head(t); it.named = false; it.values.push_back(t); it.orig.push_back(t); D.want.push_back(it); continue;
        }
        if (k0 == "P") { head(v); it.named = false; it.values.push_back(v); it.orig.push_back(v); D.want.push_back(it); continue; }
        if (k0 == "L") {
            std::string nm = name; bool guess = D.style < 0 || (D.style & cs::allow_guessing);
            if (form == 2 && guess) nm = name.substr(0, 3);
            if (D.style >= 0 && (D.style & cs::long_case_insensitive) && (serial & 1)) nm[1] = (char)toupper(nm[1]);
            bool dis = D.style >= 0 && (D.style & cs::allow_long_disguise) && form == 3;
            it.key = name; std::string t = (dis ? "-" : "--") + nm;
            if (form == 1 && mx > 0) { t += "=" + v; it.values.push_back(v); }
            head(t); it.orig.push_back(dis ? "-" + t : t); fill(it, mn);
        } else if (k0 == "S") {
            if (!c.sh[oi]) continue;
            if (D.style >= 0 && (D.style & cs::allow_long_disguise)) continue; // the long reading would be tried first
            it.key = name; char pre = D.style >= 0 && (D.style & cs::allow_slash_for_short) && (form & 2) ? '/' : '-';
            std::string t = std::string(1, pre) + name[0];
            if (form == 1 && mx > 0) { t += v; it.values.push_back(v); }
            head(t); it.orig.push_back(t); fill(it, mn);
        } else if (k0 == "G") {
            if (D.style >= 0 && (D.style & cs::allow_long_disguise)) continue;
            std::vector<size_t> fl; for (size_t i = 0; i < no; ++i) if (c.sh[i] && mn + 1 && KIND[c.kind[i]].mx == 0) fl.push_back(i);
            if (!c.sh[oi] || fl.empty()) continue;
            std::string t = "-"; size_t n = 1 + (size_t)(unsigned long)l.num(5) % 3;
            for (size_t i = 0; i < n; ++i) { size_t f = fl[(i + (size_t)(unsigned long)l.num(4)) % fl.size()]; t += LONG[f][0]; Item x; x.key = LONG[f]; x.unreg = false; x.named = true; x.tail = false; D.want.push_back(x); }
            t += name[0]; it.key = name;
            if (form == 1 && mx > 0) { t += v; it.values.push_back(v); }
            head(t); it.orig.push_back(t); fill(it, mn);
        } else if (k0 == "E") {
            if (!(D.hooks & 1)) continue;
            std::string t = "@" + v; std::string nm = name, val = mx > 0 && form != 2 ? v + "hook" : "";
            it.key = name;
            if (form == 3 && D.unreg) { it.key = nm = "hookunk" + N((long long)serial); it.unreg = true; }
            if (!val.empty()) it.values.push_back(val);
            D.pairs[t] = std::make_pair(nm, val);
            head(t); if (!it.unreg) fill(it, mn);
        } else if (k0 == "H") {
            if (!(D.hooks & 2)) continue;
            std::string t = "+" + v; Cmd::HS h; h.eat = 1 + (size_t)(unsigned long)l.num(6) % 3; 
            head(t); for (size_t j = 1; j < h.eat; ++j) D.tokens.push_back((j & 1 ? "--eaten" : "eaten") + v);
            size_t n = (size_t)(unsigned long)l.num(5) % 4; std::vector<Item> ws;
            for (size_t j = 0; j < n; ++j) {
                Item x; x.unreg = false; x.named = true; x.tail = false; size_t o = (oi + j) % no; x.orig.push_back(t);
                if (j == 1 || (j == 2 && (form & 1))) {
                    x.named = false; x.values.push_back(v + "given"); x.orig[0] = v + "origin";
                    switch ((serial + j + (size_t)form) % 7) { case 1: x.orig.clear(); break; case 2: x.values.push_back("second"); break; case 3: x.values.clear(); break; case 4: x.orig.push_back("more"); break; default: break; }
                }
                else if (D.unreg && form == 3) { x.key = "styleunk" + N((long long)serial); x.unreg = true; x.values.push_back("a"); x.values.push_back("b"); }
                else { x.key = LONG[o]; for (unsigned q = 0; q < KIND[c.kind[o]].mn; ++q) x.values.push_back(v + N((long long)q)); if (form == 1) x.orig.clear(); }
                ws.push_back(x);
            }
            h.give = ws; D.styles[t] = h;
            for (auto& x : ws) D.want.push_back(x);
            continue;
        } else if (k0 == "U") {
            if (!D.unreg) continue;
            it.key = "unk" + N((long long)serial); std::string t = "--" + it.key; if (form & 1) { t += "=" + v; it.values.push_back(v); }
            it.unreg = true; head(t); it.orig.push_back(t);
        } else if (k0 == "B") {
            if (D.unreg) continue;
            head("--bad" + N((long long)serial)); D.err = "unknown"; D.err_name = "--bad" + N((long long)serial); continue;
        } else continue;
        D.want.push_back(it);
    }
    // nothing is left of a line behind its first error
}
static void execute(const Plan& p) {
    step_limit = 50000000;
    CvtScript cv; cv.enc = 0; install(&cv);
    AtExit<std::function<void()> > reset([] { std::locale::global(std::locale::classic()); });
    n_parse = n_default = n_notify = n_validate = 0;
    Ctx c; build(c, p);
    if (c.cmds.empty()) return;
    c.snapshot = c.snap();
    for (auto& l : p.lines) if (l.op == "run")
        run_one(c, (unsigned long)l.num(0) % c.cmds.size(), l.num(1, -1), (int)((unsigned long)l.num(2) % 5), l.num(3, -1), (unsigned long)l.num(4) % c.cmds.size(), (int)((unsigned long)l.num(5) % 4), l.num(6, -1), l.num(7, 1));
    // and once more, all of them
    for (size_t i = 0; i < c.cmds.size(); ++i) run_one(c, i, -1, 0, -1, 0, 0);
}
const Property sim::PROPERTY = {"C14", generate, execute};
