// C16: every call on any input finishes in bounded work.
// Bounded liveness on a logical clock: every operation gets a budget of steps (basic blocks
// of library code) and of memory computed from the sizes of its inputs. The budget is
// enforced while the operation runs, so an endless loop is a violation, not a hang.
#include "cvt.hpp"
#include "files_impl.hpp"
#include <boost/program_options.hpp>
#include <climits>
#include <cmath>
#include <memory>
#include <sstream>
extern char** environ;
namespace po = boost::program_options;
using namespace sim;
namespace cs = boost::program_options::command_line_style;
typedef std::vector<std::string> VS;

enum { O_BUILD, O_CL, O_CFG, O_FILE, O_ENV, O_STORE, O_NOTIFY, O_LOOKUP, O_PRINT, O_SPLIT, O_CVT, O_ERR, O_COPY, NOPS };
static const char* OPS[NOPS] = {"build", "cl", "cfg", "file", "env", "store", "notify", "lookup", "print", "split", "cvt", "err", "copy"};
// steps per unit of the size formula, bytes per unit of input; several times what was ever seen
//                                 build cl  cfg file env store notify lookup print split cvt err copy
static const double STEP_C[NOPS] = {8, 60, 45, 50, 30, 10, 10, 5, 25, 120, 10, 100, 30};
static const double MEM_C[NOPS] = {40, 3000, 150, 250, 120, 30, 30, 30, 15, 80, 20, 500, 20};
static const double STEP_0 = 20000, MEM_0 = 65536;

static Plan generate(Rng& r, int tier) {
    Plan p;
    size_t big = tier ? 6000 : 1500;
    p.add("table", {N((long)r.loguniform(tier ? 300 : 120)), N((long)r.loguniform(r.chance(1, 8) ? 400 : 12)), N(r.range(0, 5)), N((long)r.loguniform(20)), N(r.range(0, 4))});
    int n = r.range(1, tier ? 6 : 4);
    for (int i = 0; i < n; ++i) {
        static const char* k[] = {"cl", "cl", "cl", "cfg", "cfg", "file", "env", "store", "store", "print", "print", "split", "cvt", "err", "copy", "selfadd", "lookup"};
        std::string op = k[r.below(17)];
        long oom = r.chance(1, 5) ? (long)r.loguniform(300) : -1;
        p.add(op, {N((long)r.loguniform(big)), N((long)r.loguniform(r.chance(1, 4) ? big * 2 : 20)), N(r.range(0, 13)), N(r.range(0, 8)), N((long)r.below(1 << 20)), N(oom)});
    }
    return p;
}
static std::string text(u64 seed, size_t len, int kind) {
    Rng r(seed); std::string s; s.reserve(len + 16);
    static const char* h[] = {"=", "-", "--", "/", "[", "]", "#", "'", "\"", "\\", "%", " ", "\t", ".", "*", "%value%", "%canonical_option%", "a", "b=", "=c", ",", "\xc3\xa9", "~", "@"};
    while (s.size() < len) switch (kind) {
        case 0: s += (char)('a' + r.below(26)); break;
        case 1: s += h[r.below(24)]; break;
        case 2: s += '-'; break;
        case 3: s += '='; break;
        case 4: s += ' '; break;
        case 5: s += '%'; break;
        case 6: s += r.chance(1, 6) ? ' ' : (char)('a' + r.below(26)); break;
        case 7: s += '\\'; break;
        case 8: s += '"'; break;
        default: s += (char)(1 + r.below(126)); break;
    }
    s.resize(len);
    return s;
}
struct Size { double bytes, items; Size() : bytes(0), items(0) {} void add(const std::string& s) { bytes += (double)s.size(); ++items; } double all() const { return bytes + items * 8 + 8; } };
static Size table_size;
static std::string label;

// Runs one library operation within its budgets. Returns whether it ended normally.
static FILE* cal;
template<class F> static bool budget(int op, double step_units, double mem_units, F f) {
    double sl = STEP_0 + STEP_C[op] * step_units, ml = MEM_0 + MEM_C[op] * mem_units;
    u64 s0 = steps; u64 m0 = mem.live_bytes;
    stack_limit = 256u << 10; step_limit = steps + (u64)sl; mem.cap_bytes = mem.live_bytes + (u64)ml; mem.peak_bytes = mem.live_bytes;
    if (mem.cap_bytes > (u64)6 << 30) mem.cap_bytes = (u64)6 << 30;
    bool ok = true; std::string what;
    try { lib([&] { f(); return 0; }); }
    catch (std::bad_alloc&) { ok = false; what = "bad_alloc"; }
    catch (po::error& e) { ok = false; what = "error"; mem.fail_at = ~0ull; std::string m = lib([&] { return std::string(e.what()); }); ev(hex(hash_str(m))); }
    catch (std::exception& e) { ok = false; what = "exception"; }
    catch (int) { ok = false; what = "int"; }
    u64 used = steps - s0, peak = mem.peak_bytes - m0;
    step_limit = ~0ull; mem.cap_bytes = (u64)8 << 30;
    ev(label + " " + OPS[op] + " steps " + N((long long)used) + " of " + N((long long)sl) + " bytes " + N((long long)peak) + " of " + N((long long)ml) + (ok ? "" : " " + what));
    state(mix((u64)op, mix((u64)std::log2(1.0 + (double)used), mix(ok, (u64)std::log2(1.0 + step_units)))));
    if (cal) { fprintf(cal, "%s %.4f %.4f %s\n", OPS[op], used > STEP_0 / 4 ? (double)used / step_units : 0, peak > 65536 / 4 ? (double)peak / mem_units : 0, label.c_str()); fflush(cal); }
    nontrivial();
    return ok;
}
// the same with an injected allocation failure first
template<class F> static bool faulty(int op, long oom, double su, double mu, F f) {
    if (oom >= 0) { Oom o((u64)oom, 1); budget(op, su, mu, f); tally("fault.allocation", mem.failed); }
    return budget(op, su, mu, f);
}
struct T { std::unique_ptr<po::options_description> d; std::vector<std::string> names; size_t m; std::string shorts; };
static void build(T& t, long m, long len, long kind, long nest, long how) {
    t.m = (size_t)m; table_size = Size();
    static const char* pal = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    std::vector<std::string> specs;
    for (long i = 0; i < m; ++i) {
        std::string nm = std::string((size_t)len, 'n') + "o" + N(i); // long common prefixes
        if (kind == 4) nm = N(i) + std::string((size_t)len, 'n');
        if (kind == 5) nm = "same"; // ambiguous all over
        t.names.push_back(nm);
        if (kind == 3) nm += i % 3 == 0 ? "*" : "";
        if (kind != 3 && i < 40) { nm += std::string(",") + pal[i]; t.shorts += pal[i]; }
        specs.push_back(nm); table_size.add(nm); table_size.bytes += 40;
    }
    auto fill = [&](po::options_description& d, size_t a, size_t b) {
        for (size_t i = a; i < b; ++i) switch ((size_t)kind == 0 ? i % 7 : (i + (size_t)kind) % 7) {
            case 0: case 5: d.add_options()(specs[i].c_str(), "a flag with a description"); break;
            case 1: d.add_options()(specs[i].c_str(), po::value<std::string>(), "text of\nlines"); break;
            case 2: d.add_options()(specs[i].c_str(), po::value<std::vector<std::string> >()->multitoken()->composing(), "list"); break;
            case 3: d.add_options()(specs[i].c_str(), po::value<int>()->default_value(7), "\tnumber"); break;
            case 4: d.add_options()(specs[i].c_str(), po::value<std::string>()->implicit_value("x"), ""); break;
            default: d.add_options()(specs[i].c_str(), po::bool_switch(), "switch"); break;
        }
    };
    t.d.reset(new po::options_description("table"));
    if (nest <= 0) { budget(O_BUILD, table_size.all(), table_size.all(), [&] { fill(*t.d, 0, (size_t)m); }); return; }
    double levels = (double)nest + 1;
    budget(O_BUILD, table_size.all() * levels, table_size.all() * levels, [&] {
        if (how % 2) { // nested: each level holds the levels below
            std::vector<std::unique_ptr<po::options_description> > l;
            for (long i = 0; i < nest; ++i) l.push_back(std::unique_ptr<po::options_description>(new po::options_description("level")));
            size_t per = (size_t)m / (size_t)(nest + 1);
            for (long i = 0; i < nest; ++i) { fill(*l[(size_t)i], (size_t)i * per, (size_t)(i + 1) * per); if (i) l[(size_t)i]->add(*l[(size_t)i - 1]); }
            fill(*t.d, (size_t)nest * per, (size_t)m); t.d->add(*l.back());
        } else { // side by side
            size_t per = (size_t)m / (size_t)(nest + 1);
            fill(*t.d, (size_t)nest * per, (size_t)m);
            for (long i = 0; i < nest; ++i) { po::options_description g("group"); fill(g, (size_t)i * per, (size_t)(i + 1) * per); t.d->add(g); }
        }
    });
}
static VS tokens(T& t, size_t n, size_t len, int mode, u64 seed) {
    Rng r(seed); VS v;
    auto nm = [&] { return t.names.empty() ? std::string("none") : t.names[r.below(t.names.size())]; };
    switch (mode) {
    case 0: for (size_t i = 0; i < n; ++i) v.push_back("--" + nm() + "=" + text(r.next(), len, 0)); break;
    case 1: { std::string g = "-"; for (size_t i = 0; i < n + len; ++i) g += t.shorts.empty() ? 'a' : t.shorts[r.chance(1, 2) ? 0 : r.below(t.shorts.size())]; v.push_back(g); break; }
    case 2: for (size_t i = 0; i < n; ++i) v.push_back(text(r.next(), r.below(len + 1), 1)); break;
    case 3: for (size_t i = 0; i < n; ++i) v.push_back(text(r.next(), len, 0)); break;
    case 4: v.push_back("--n"); break;
    case 5: v.push_back(text(0, n + len, 2)); break;
    case 6: v.push_back("--" + text(0, n + len, 3)); break;
    case 7: v.push_back("--"); for (size_t i = 0; i < n; ++i) v.push_back(text(r.next(), r.below(len + 1), 1)); break;
    case 8: for (size_t i = 0; i < n; ++i) v.push_back("-" + nm()); break;
    case 9: for (size_t i = 0; i < n; ++i) v.push_back("--unknown" + text(r.next(), len, 0)); break;
    case 10: v.push_back("--" + nm()); for (size_t i = 0; i < n; ++i) v.push_back("v" + text(r.next(), len, 0)); break;
    case 11: for (size_t i = 0; i < n; ++i) v.push_back("/" + std::string(1, t.shorts.empty() ? 'a' : t.shorts[0]) + text(r.next(), r.chance(1, 3) ? len : 0, 0)); break;
    case 12: for (size_t i = 0; i < n; ++i) v.push_back(r.chance(1, 2) ? "-" : ""); break;
    default: for (size_t i = 0; i < n; ++i) v.push_back(r.chance(1, 2) ? "--" + nm() : r.chance(1, 2) ? text(r.next(), 3, 0) : std::string("-") + (t.shorts.empty() ? 'a' : t.shorts[r.below(t.shorts.size())])); break;
    }
    return v;
}
static std::string lines(T& t, size_t n, size_t len, int mode, u64 seed) {
    Rng r(seed); std::string s;
    auto nm = [&] { return t.names.empty() ? std::string("none") : t.names[r.below(t.names.size())]; };
    switch (mode) {
    case 0: for (size_t i = 0; i < n; ++i) s += nm() + " = " + text(r.next(), len, 0) + "\n"; break;
    case 1: for (size_t i = 0; i < n; ++i) s += nm() + text(r.next(), 3, 0) + "=" + text(r.next(), len, 1) + "\n"; break;
    case 2: for (size_t i = 0; i < n; ++i) { std::string x = text(r.next(), len, 0); s += "[" + x + "]\n"; if (i % 3 == 0) s += "k=" + x + "\n"; } break;
    case 3: s = std::string(n, '\n'); break;
    case 4: s = "#" + text(r.next(), n + len, 1); break;
    case 5: s = std::string(n + len, ' ') + nm() + std::string(n, ' ') + "=" + std::string(n + len, ' ') + "1" + std::string(n, ' '); break;
    case 6: s = std::string(n + len, '['); break;
    case 7: s = "a" + std::string(n + len, '='); break;
    case 8: for (size_t i = 0; i < n; ++i) s += text(r.next(), r.below(len + 1), 1) + "\n"; break;
    case 9: s = nm() + "=" + text(r.next(), n + len, 6); break;
    case 10: s = std::string(n, '\r'); break;
    case 11: for (size_t i = 0; i < n; ++i) s += "[" + std::string(i % (len + 1), '.') + "]\n"; break;
    case 12: s = "[" + text(r.next(), n + len, 0) + "]\nx=1\n"; break;
    default: for (size_t i = 0; i < n; ++i) s += nm() + "=1 # " + text(r.next(), len, 1) + "\n"; break;
    }
    return s;
}
static Size size_of(const VS& v) { Size s; for (auto& x : v) s.add(x); return s; }
static int style_of(int s) {
    switch (s % 6) {
    case 0: return cs::unix_style;
    case 1: return cs::unix_style | cs::allow_long_disguise;
    case 2: return cs::unix_style | cs::allow_slash_for_short | cs::allow_long_disguise;
    case 3: return cs::unix_style & ~cs::allow_guessing;
    case 4: return cs::unix_style | cs::case_insensitive;
    default: return cs::allow_short | cs::allow_slash_for_short | cs::allow_dash_for_short | cs::short_allow_adjacent | cs::short_allow_next | cs::allow_long | cs::long_allow_adjacent | cs::long_allow_next | cs::allow_sticky;
    }
}
static po::parsed_options parse_cl(T& t, const VS& v, int style, int hook, bool unreg, const po::positional_options_description* pd) {
    po::command_line_parser p(v);
    p.options(*t.d).style(style);
    if (unreg) p.allow_unregistered();
    if (pd) p.positional(*pd);
    std::string nm = t.names.empty() ? "none" : t.names[0];
    typedef std::pair<std::string, std::string> SP; typedef std::vector<po::option> VO;
    u64* calls = new u64(0); std::shared_ptr<u64> cc(calls);
    if (hook == 1) p.extra_parser([nm](const std::string&) { Pause z; return SP(nm, ""); });
    if (hook == 2) p.extra_parser([](const std::string&) { Pause z; return SP(); });
    if (hook == 3) p.extra_style_parser([nm](VS&) { Pause z; VO r(1); r[0].string_key = nm; r[0].value.push_back("1"); return r; });
    if (hook == 4) p.extra_style_parser([nm](VS& a) { Pause z; VO r; for (auto& x : a) { po::option o; o.string_key = nm; o.value.push_back(x); r.push_back(o); } a.clear(); return r; });
    if (hook == 5) p.extra_style_parser([](VS& a) { Pause z; if (!a.empty()) a.erase(a.begin()); return VO(); });
    if (hook == 6) p.extra_style_parser([cc](VS&) -> VO { Pause z; if (++*cc > 5) { tally("fault.hook throws"); throw 42; } return VO(); });
    if (hook == 7) p.extra_parser([](const std::string& s) { Pause z; return SP("nowhere", s); });
    if (hook == 8) p.extra_style_parser([](VS& a) { Pause z; a.clear(); return VO(); });
    if (hook) tally("degenerate hooks");
    return p.run();
}
static void execute(const Plan& p) {
    step_limit = 400000000; mem.cap_bytes = (u64)8 << 30;
    const char* cf = getenv("SIM_CAL"); if (cf && !cal) cal = fopen(cf, "a");
    static CvtScript cv; cv.enc = 0; cv.steps.clear(); install(&cv);
    AtExit<std::function<void()> > reset([] { std::locale::global(std::locale::classic()); files = 0; });
    T t; t.m = 0;
    long m = 3, len = 3, kind = 0, nest = 0, how = 0;
    if (const Line* l = p.find("table")) { m = l->num(0); len = l->num(1); kind = (long)((unsigned long)l->num(2) % 6); nest = l->num(3); how = (long)((unsigned long)l->num(4) % 5); }
    if (m < 0) m = 0;
    if (m > 500) m = 500;
    if (len < 0) len = 0;
    if (len > 1000) len = 1000;
    if (nest < 0) nest = 0;
    if (nest > 60) nest = 60;
    if (how > 1 ) nest = nest % 4;
    label = "table"; build(t, m, len, kind, nest, how);
    double M = table_size.all();
    po::variables_map vm; double vmsize = 8;
    int idx = 0;
    for (auto& l : p.lines) {
        if (l.op == "table") continue;
        size_t n = (size_t)std::min(20000L, std::max(0L, l.num(0))), ln = (size_t)std::min(20000L, std::max(0L, l.num(1)));
        if (n * ln > 60000) ln = 60000 / (n + 1);
        int mode = (int)((unsigned long)l.num(2) % 14), x = (int)((unsigned long)l.num(3) % 9); u64 seed = (u64)l.num(4); long oom = l.num(5, -1);
        label = l.op + "#" + N(idx++) + " mode " + N(mode) + "/" + N(x) + " n " + N((long long)n) + " len " + N((long long)ln);
        if (l.op == "cl") {
            if ((double)n * M > 2e6) n = (size_t)(2e6 / M); // keeps a run short
            VS v; Size s; double work;
            for (;;) { // keeps a run short, too
                v = tokens(t, n, ln, mode, seed); s = size_of(v);
                work = s.items * (M + s.items) + s.all() * (1 + (mode == 1 || mode == 2 || mode == 8 ? M : 0)) + M + s.bytes * (double)(t.m + 1); // every token against every name; tokens are taken from the front
                if (work <= 3e7 || n < 2) break;
                n = std::max((size_t)1, std::min(n - 1, (size_t)((double)n * 3e7 / work)));
            }
            po::positional_options_description pd; pd.add("first", 2).add("rest", -1);
            faulty(O_CL, oom, work, s.all() + M, [&] { parse_cl(t, v, style_of((int)(seed % 6)), x, seed % 4 < 2, seed % 3 ? &pd : 0); });
        } else if (l.op == "cfg") {
            std::string s = lines(t, n, ln, mode, seed); double S = (double)s.size() + 8 * (double)std::count(s.begin(), s.end(), '\n') + 8;
            faulty(O_CFG, oom, S + M, S + M, [&] {
                SourceBuf<char> sb; sb.text = s; if (x & 1) sb.chunks.push_back(1); if (x & 2) { sb.fail = F_THROW; sb.fail_at = s.size() / 2; }
                std::istream is(&sb); if (x == 7) is.exceptions(std::ios::badbit);
                po::parse_config_file(is, *t.d, seed % 4 != 0);
            });
            if (x == 8 && s.size() < 20000) { std::wstring w = widen(s); faulty(O_CFG, oom, 4 * (S + M), 4 * (S + M), [&] { std::wistringstream is(w); po::parse_config_file(is, *t.d, true); }); }
        } else if (l.op == "file") {
            std::string s = lines(t, n, ln, mode, seed); double S = (double)s.size() + 8 * (double)std::count(s.begin(), s.end(), '\n') + 8;
            std::string path = make_file(s);
            FileFaults ff;
            if (x & 1) { ReadFault f = {(long)s.size() / 2, EINTR, 1 + (int)ln % 500, false}; ff.reads.push_back(f); }
            if (x & 2) ff.sizes.push_back(1 + (long)(seed % 7));
            if (x & 4) { ReadFault f = {(long)(s.size() * 2 / 3), EIO, 1, false}; ff.reads.push_back(f); }
            files = &ff;
            faulty(O_FILE, oom, S + M, S + M, [&] { po::parse_config_file(path.c_str(), *t.d, seed % 4 != 0); });
            files = 0;
        } else if (l.op == "env") {
            VS e; Rng r(seed); for (size_t i = 0; i < n; ++i) e.push_back(mode % 3 == 0 && !t.names.empty() ? "P_" + t.names[r.below(t.names.size())] + "=" + text(r.next(), ln, 0) : text(r.next(), ln, mode % 4));
            Size s = size_of(e); std::vector<char*> ptr; for (auto& q : e) { for (auto& c : q) if (!c) c = '0'; ptr.push_back(&q[0]); } ptr.push_back(0);
            struct B { char** k; B() : k(environ) {} ~B() { environ = k; } } back; environ = &ptr[0];
            faulty(O_ENV, oom, s.all() + M, s.all() + M, [&] { if (x % 2) po::parse_environment(*t.d, "P_"); else po::parse_environment(*t.d, [](std::string q) { Pause z; return q; }); });
        } else if (l.op == "store" || l.op == "lookup") {
            VS v; Rng r(seed); if ((double)n * M > 1e6) n = (size_t)(1e6 / M);
            for (size_t i = 0; i < n && !t.names.empty(); ++i) { size_t k = r.below(t.names.size()); size_t kk = kind == 0 ? k % 7 : (k + (size_t)kind) % 7; if (kk == 2) { v.push_back("--" + t.names[k] + "=" + text(r.next(), ln + 1, mode % 2 ? 1 : 0)); } else if (kk == 1 && r.chance(1, 20)) v.push_back("--" + t.names[k] + "=v"); }
            po::parsed_options po_(t.d.get());
            try { po_ = parse_cl(t, v, cs::unix_style & ~cs::allow_guessing, 0, false, 0); } catch (po::error&) {}
            Size s = size_of(v);
            vmsize += s.all() + M;
            bool fresh = x % 2; po::variables_map own; po::variables_map& tgt = fresh ? own : vm;
            faulty(O_STORE, oom, s.items * M + s.all() + M, s.all() + M + vmsize, [&] { po::store(po_, tgt); });
            faulty(O_NOTIFY, oom, vmsize, vmsize, [&] { po::notify(tgt); });
            std::vector<std::unique_ptr<po::variables_map> > chain;
            size_t h = l.op == "lookup" ? std::min<size_t>(n, 300) : 2;
            for (size_t i = 0; i < h; ++i) { chain.push_back(std::unique_ptr<po::variables_map>(new po::variables_map)); if (i) chain[i]->next(chain[i - 1].get()); }
            if (h) chain[0]->next(&tgt);
            faulty(O_LOOKUP, oom, (double)h * 50 + (double)len + 60, 50 * (double)h + 200, [&] { if (h) { (*chain[h - 1])["absent"]; (*chain[h - 1])[t.names.empty() ? "x" : t.names[0]]; } tgt.count("absent"); });
            faulty(O_COPY, oom, vmsize, vmsize, [&] { po::variables_map c(tgt); c.clear(); });
        } else if (l.op == "print") {
            unsigned L = 2 + (unsigned)(ln % 200), D = (unsigned)(seed % (L > 2 ? L - 1 : 1)); if (D >= L - 1) D = 0;
            static const int dk[] = {0, 4, 6, 9, 0, 6}; std::string desc = text(seed, n, dk[x % 6]); for (char& c : desc) if (c == '\t') c = ' ';
            if (x == 4) desc = std::string(n, '\n'); if (x == 5) desc = "\t" + desc;
            if (mode > 9) { // the whole table
                std::string out;
                double O = M * 80 + 2000;
                faulty(O_PRINT, oom, M * 6 + O / 4, O + M, [&] { SinkBuf sb(mode == 12 ? 1 : 0); if (mode == 11) { sb.fail = F_THROW; sb.fail_at = 500; } if (mode == 13) sb.max_write = 3; std::ostream os(&sb); os << *t.d; });
            } else {
                // every character of the description may take a line of its own
                double width = L, lines_ = desc.size() + 3, O = lines_ * (width + 3) + 200;
                faulty(O_PRINT, oom, O + (double)desc.size(), O + 400, [&] { po::options_description d("c", L, D); d.add_options()(x == 3 ? "x" : "some-longer-name,s", po::value<int>(), desc.c_str()); std::ostringstream os; if (x == 6) { po::options_description big("b", L + 200, D + 1); big.add(d); big.add_options()("a-name-which-is-quite-long-and-needs-a-wide-column", ""); os << big; } else if (x == 7) d.print(os, (unsigned)(seed % 300)); else os << d; });
            }
        } else if (l.op == "split") {
            std::string s = text(seed, n + ln, mode == 0 ? 7 : mode == 1 ? 8 : mode == 2 ? 4 : mode < 8 ? 1 : 6);
            double S = (double)s.size() + 8;
            faulty(O_SPLIT, oom, S, S, [&] { if (x == 0) po::split_unix(s, "", "", ""); else if (x == 1) po::split_unix(s, s.substr(0, 50), "'", "%"); else po::split_unix(s); });
            if (x > 6) { std::wstring w = widen(s); faulty(O_SPLIT, oom, 4 * S, 4 * S, [&] { po::split_unix(w); }); }
        } else if (l.op == "cvt") {
            std::string s = text(seed, n + ln, mode % 10); double S = (double)s.size() + 8; std::wstring w = widen(s);
            cv.steps.clear(); if (x % 3) cv.steps.push_back(x % 3); cv.fail_after = x > 6 ? (long)n / 2 : -1;
            faulty(O_CVT, oom, 8 * S, 8 * S, [&] { boost::to_local_8_bit(w); });
            faulty(O_CVT, oom, 8 * S, 8 * S, [&] { boost::from_local_8_bit(s); });
            faulty(O_CVT, oom, 8 * S, 8 * S, [&] { boost::from_utf8(boost::to_utf8(w)); });
            std::vector<std::wstring> wv; for (size_t i = 0; i + 10 < w.size() && i < 2000; i += 10) wv.push_back(w.substr(i, 10));
            Size z; z.items = (double)wv.size(); z.bytes = 10 * z.items;
            if (z.items * M < 2e6) faulty(O_CL, oom, z.items * (M + z.items) + z.all() * M + M, 4 * z.all() + M, [&] { po::wcommand_line_parser(wv).options(*t.d).allow_unregistered().run(); });
            cv.steps.clear(); cv.fail_after = -1;
        } else if (l.op == "err") {
            std::string a = text(seed, n, mode % 10), b = text(seed + 1, ln, (x + 1) % 10); double S = (double)(a.size() + b.size()) + 100;
            faulty(O_ERR, oom, S, S, [&] {
                switch (x) {
                case 0: { po::unknown_option e(a); e.add_context(b, a, cs::allow_long); std::string(e.what()); break; }
                case 1: { po::invalid_option_value e(a); e.add_context(b, a, cs::allow_dash_for_short); std::string(e.what()); po::invalid_option_value f(e); f.what(); break; }
                case 2: { po::validation_error e(po::validation_error::invalid_option_value, a, b); std::string(e.what()); break; }
                case 3: { po::error_with_option_name e(a, b, a, cs::allow_long); e.set_substitute("mine", a); std::string(e.what()); break; }
                case 4: { po::invalid_config_file_syntax e(a, po::invalid_syntax::unrecognized_line); std::string(e.what()); break; }
                case 5: { po::invalid_command_line_syntax e(po::invalid_syntax::missing_parameter, a, b, cs::allow_long); std::string(e.what()); break; }
                case 6: { po::required_option e(a); std::string(e.what()); e.set_option_name(b); e.what(); break; }
                case 7: { po::invalid_bool_value e(a); e.set_substitute("value", b + "%value%"); std::string(e.what()); break; }
                default: { VS alt; for (size_t i = 0; i < n % 300 + 1; ++i) alt.push_back(text(seed + i % 7, 3, 0)); po::ambiguous_option e(alt); e.add_context(b, b, cs::allow_long); std::string(e.what()); }
                }
            });
        } else if (l.op == "copy") {
            faulty(O_COPY, oom, M, M, [&] { po::options_description d(*t.d); });
            if (!t.names.empty()) faulty(O_COPY, oom, M, M, [&] { t.d->find_nothrow(t.names.back(), true, x % 2, x % 3); });
        } else if (l.op == "selfadd" && x == 0 && m < 200) {
            for (size_t i = 0; i < n % 3; ++i) { faulty(O_BUILD, oom, 4 * M, 4 * M, [&] { t.d->add(*t.d); }); M *= 4; } // a failed attempt may have doubled it too
        }
    }
}
const Property sim::PROPERTY = {"C16", generate, execute};
