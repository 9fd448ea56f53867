// C09: running out of memory is reported, never turned into a wrong result.
// A program (plan) is run once with memory available: that gives the reference outcome of
// every step. It is then run again with allocations failing inside chosen steps: each
// attempt must give the reference outcome or report the failure, and repeating the step
// with memory available must give the reference outcome.
#include "cvt.hpp"
#include "files_impl.hpp"
#include <boost/optional.hpp>
#include <boost/program_options.hpp>
#include <boost/program_options/detail/convert.hpp>
#include <deque>
#include <memory>
#include <sstream>
namespace po = boost::program_options;
using namespace sim;

// ------------------------------------------------------------------ generation
static const char* WORDS[] = {"alpha", "beta", "gamma-delta", "num", "list", "verbose", "section.key", "a-rather-long-option-name-beyond-any-small-buffer", "mode", "wide"};
static std::string longish(Rng& r) { std::string s; int n = r.chance(1, 3) ? r.range(20, 90) : r.range(1, 12); for (int i = 0; i < n; ++i) s += (char)(r.chance(1, 12) ? '\xc3' : r.chance(1, 7) ? '-' : r.range('a', 'z')); std::string q; for (char c : s) { if (c == '\xc3') q += "\xc3\xa9"; else q += c; } return q; }
struct GOpt { std::string name; char sh; int kind; };
static std::string gen_value(Rng& r, int kind) {
    if (r.chance(1, 12)) return "not-a-number-" + longish(r);
    switch (kind) {
    case 1: case 5: case 9: case 13: return N(r.range(-5, 100000));
    case 6: return "2.5";
    case 10: return r.chance(1, 2) ? "yes" : "off";
    default: return longish(r);
    }
}
static void gen_opts(Rng& r, Plan& p, std::vector<GOpt>& o, int t, int n, std::vector<Line>* = 0) {
    for (int i = 0; i < n; ++i) {
        GOpt g; g.name = std::string(WORDS[r.below(10)]) + (r.chance(2, 3) ? N((long long)o.size()) : ""); g.sh = r.chance(1, 3) ? (char)('a' + o.size() % 26) : 0; g.kind = r.range(0, 15);
        for (auto& x : o) if (x.name == g.name) g.name += "x" + N((long long)o.size());
        p.add("opt", {N(t), g.name + (r.chance(1, 8) ? ",second-" + g.name : "") + (g.sh ? std::string(",") + g.sh : ""), N(g.kind), r.chance(1, 6) ? std::string() : longish(r) + " " + longish(r)});
        o.push_back(g);
    }
}
static std::string ini_text(Rng& r, const std::vector<GOpt>& o) {
    std::string s; int n = r.range(0, 6);
    for (int i = 0; i < n; ++i) {
        if (r.chance(1, 8)) s += "# " + longish(r) + "\n";
        if (r.chance(1, 10)) s += "[sec" + N(i) + "]\n";
        if (r.chance(1, 14)) { s += longish(r) + "\n"; continue; }
        if (o.empty() || r.chance(1, 10)) s += "unknown" + N(i) + " = " + longish(r) + "\n";
        else { const GOpt& g = r.pick(o); s += g.name + " = " + gen_value(r, g.kind) + "\n"; }
    }
    return s;
}
static std::vector<std::string> cmd_tokens(Rng& r, const std::vector<GOpt>& o) {
    std::vector<std::string> a; int n = r.range(0, 6);
    for (int i = 0; i < n; ++i) {
        if (o.empty() || r.chance(1, 8)) { a.push_back(r.chance(1, 2) ? "--nosuch" + longish(r) + "=" + longish(r) : longish(r)); continue; }
        const GOpt& g = r.pick(o);
        bool flag = g.kind == 0 || g.kind == 4;
        if (flag) a.push_back(g.sh && r.chance(1, 2) ? std::string("-") + g.sh : "--" + g.name);
        else if (r.chance(1, 2)) a.push_back("--" + g.name.substr(0, r.chance(1, 4) ? (size_t)r.range(2, 30) : g.name.size()) + "=" + gen_value(r, g.kind));
        else { a.push_back(g.sh && r.chance(1, 2) ? std::string("-") + g.sh : "--" + g.name); if (r.chance(7, 8)) a.push_back(gen_value(r, g.kind)); }
    }
    if (r.chance(1, 10)) { a.push_back("--"); a.push_back(longish(r)); }
    return a;
}
static void oom(Rng& r, Plan& p) {
    if (r.chance(1, 3)) return;
    bool sweep = r.chance(1, 4);
    p.add("oom", {N(sweep ? 0 : (long)r.loguniform(300)), N(r.chance(1, 3) ? 0 : 1), N(r.chance(3, 4) ? 0 : (long)r.loguniform(400)), sweep ? N(r.range(2, 60)) : "1"});
}
static Plan generate(Rng& r, int tier) {
    Plan p; std::vector<GOpt> o;
    int nt = r.range(1, 3), big = tier && r.chance(1, 4) ? 3 : 1;
    for (int t = 0; t < nt; ++t) {
        p.add("tab", {N(t), r.chance(1, 4) ? "" : longish(r)});
        int n = r.range(0, 4 * big);
        for (int i = 0; i < n; ++i) { oom(r, p); gen_opts(r, p, o, t, 1); }
    }
    for (int t = 1; t < nt; ++t) if (r.chance(4, 5)) { oom(r, p); p.add("group", {"0", N(t)}); }
    if (r.chance(1, 3)) { oom(r, p); p.add("copyt", {"0"}); }
    int np = r.range(0, 2);
    for (int i = 0; i < np; ++i) { oom(r, p); p.add("pos", {o.empty() ? "pos" : r.pick(o).name, N(i == np - 1 && r.chance(1, 2) ? -1 : r.range(1, 3))}); }
    int n = r.range(1, 7 * big);
    for (int i = 0; i < n; ++i) {
        oom(r, p);
        switch (r.range(0, 17)) {
        case 0: p.add("print", {"0", r.chance(1, 2) ? "0" : N(r.range(5, 30))}); break;
        case 1: p.add("find", {"0", o.empty() ? "x" : r.pick(o).name.substr(0, (size_t)r.range(1, 60)), N(r.range(0, 1))}); break;
        case 2: case 3: { std::vector<std::string> a = cmd_tokens(r, o); a.insert(a.begin(), N(r.range(0, 3))); a.insert(a.begin(), N(r.range(0, 2))); p.add("cmd", a); if (r.chance(1, 2)) { oom(r, p); p.add("store"); } break; }
        case 4: case 5: p.add("cfg", {N(r.range(0, 2)), N(r.range(0, 1)), ini_text(r, o)}); if (r.chance(1, 2)) { oom(r, p); p.add("store"); } break;
        case 6: p.add("env", {o.empty() ? "x" : r.pick(o).name, longish(r), longish(r), N(r.range(0, 1))}); if (r.chance(1, 2)) { oom(r, p); p.add("store"); } break;
        case 7: p.add("collect", {N(r.range(0, 1))}); break;
        case 8: case 9: p.add("store"); break;
        case 10: p.add("notify"); break;
        case 11: case 12: p.add("look", {o.empty() ? "x" : r.pick(o).name}); break;
        case 13: p.add("copyvm"); if (r.chance(1, 2)) p.add("chain", {o.empty() ? "x" : r.pick(o).name}); break;
        case 14: p.add("split", {N(r.range(0, 1)), longish(r) + " '" + longish(r) + " x' \"a\\\"" + longish(r) + "\" " + (r.chance(1, 6) ? "'open" : longish(r))}); break;
        case 15: p.add("conv", {N(r.range(0, 3)), longish(r) + longish(r)}); break;
        case 16: { std::vector<std::string> a = cmd_tokens(r, o); for (auto& t : a) if (r.chance(1, 3)) t = "+:" + t; a.insert(a.begin(), N(r.range(0, 1))); p.add("hook", a); if (r.chance(1, 2)) { oom(r, p); p.add("store"); } break; }
        default: p.add("copyp"); break;
        }
    }
    return p;
}

// ------------------------------------------------------------------ execution
struct Outcome { int kind; std::string text; // 0 value, 1 error, 2 bad_alloc, 3 the caller's stream is bad, 4 reading_file
    bool operator==(const Outcome& o) const { return kind == o.kind && text == o.text; } };
static std::string show(const Outcome& o) { static const char* k[] = {"value ", "error ", "bad_alloc ", "bad stream ", "file reading error "}; return k[o.kind] + o.text.substr(0, 500); }
static std::string ser(const po::option& x) {
    std::string s = "{" + x.string_key + "," + N(x.position_key) + "," + N(x.unregistered) + N(x.case_insensitive) + ":";
    for (auto& v : x.value) s += "<" + v + ">";
    s += "/";
    for (auto& v : x.original_tokens) s += "<" + v + ">";
    return s + "}";
}
static std::string ser(const po::woption& x) {
    std::string s = "{" + x.string_key + "," + N(x.position_key) + "," + N(x.unregistered) + ":";
    for (auto& v : x.value) s += "<" + narrow(v) + ">";
    s += "/";
    for (auto& v : x.original_tokens) s += "<" + narrow(v) + ">";
    return s + "}";
}
template<class P> std::string ser_all(const P& p) { std::string s = "prefix " + N(p.m_options_prefix) + " "; for (auto& x : p.options) s += ser(x); return s; }
template<class T> static bool put_any(const boost::any& a, std::string& s, const char* t) { if (const T* v = boost::any_cast<T>(&a)) { std::ostringstream o; o << t << *v; s = o.str(); return true; } return false; }
static std::string ser(const boost::any& a) {
    std::string s;
    if (a.empty()) return "(none)";
    if (put_any<int>(a, s, "int ") || put_any<std::string>(a, s, "string ") || put_any<bool>(a, s, "bool ") || put_any<double>(a, s, "double ")) return s;
    if (auto* v = boost::any_cast<std::wstring>(&a)) return "wide " + narrow(*v);
    if (auto* v = boost::any_cast<boost::optional<int> >(&a)) return "optional " + (*v ? N(**v) : "-");
    if (auto* v = boost::any_cast<std::vector<int> >(&a)) { s = "numbers "; for (auto& x : *v) s += N(x) + ","; return s; }
    if (auto* v = boost::any_cast<std::vector<std::wstring> >(&a)) { s = "wide list "; for (auto& x : *v) s += "<" + narrow(x) + ">"; return s; }
    if (auto* v = boost::any_cast<std::vector<std::string> >(&a)) { s = "list "; for (auto& x : *v) s += "<" + x + ">"; return s; }
    return "other type";
}

struct Ctx {
    std::unique_ptr<po::options_description> t[3];
    std::vector<std::unique_ptr<po::options_description> > old;
    po::positional_options_description pos; bool closed;
    std::unique_ptr<po::parsed_options> p; std::unique_ptr<po::wparsed_options> wp;
    std::unique_ptr<po::variables_map> vm;
    std::string target; std::vector<std::string> notified;
    std::vector<std::string> names;
    bool faulting;
    Ctx() : closed(false), vm(new po::variables_map), faulting(false) {}
};
// Faults for one step
struct Fault { long k, n, mn, reps; };

struct Exec {
    Ctx c;
    CvtScript cv; // local encoding of the run
    std::vector<Outcome> ref; std::vector<u64> allocs; size_t at; bool second;
    u64 injected;
    Exec() : at(0), second(false), injected(0) {}

    // Runs f inside the library; g describes the result, outside of it.
    template<class F, class G> Outcome once(F f, G g) {
        Outcome o; o.kind = 0;
        try { lib(f); mem.fail_at = ~0ull; o.text = g(); }
        catch (std::bad_alloc&) { mem.fail_at = ~0ull; o.kind = 2; }
        catch (po::reading_file& e) { mem.fail_at = ~0ull; o.kind = 4; }
        catch (std::exception& e) { mem.fail_at = ~0ull; o.kind = 1; o.text = std::string(typeid(e).name()) + ": " + e.what(); }
        return o;
    }
    // f: the library call. g: its result as text. undo: makes the objects as before (false: nothing to undo; the call
    // promises to have no effect when it fails). repeat: may be run again after success.
    template<class F, class G, class U> void step(const char* what, const Fault* ft, bool repeat, F f, G g, U undo, bool file = false) {
        if (!second) {
            Oom q(~0ull, 1); (void)q;
            Outcome o = once(f, g);
            ref.push_back(o); allocs.push_back(mem.count);
            if (o.kind == 2) violate("reference-out-of-memory", what);
            ev(std::string(what) + " allocations " + N((long long)mem.count) + " outcome " + N(o.kind) + " " + hex(hash_str(o.text)));
            if (o.kind) undo();
            return;
        }
        const Outcome& want = ref[at]; u64 na = allocs[at]; ++at;
        long k = ft ? ft->k : 0;
        for (long i = 0; ft && i < ft->reps && na; ++i, ++k) {
            if (ft->reps > 1 && (u64)k >= na) break;
            Outcome got;
            {
                Oom q(ft->reps > 1 ? (u64)k : (u64)k % na, (u64)ft->n, (size_t)ft->mn);
                c.faulting = true;
                got = once(f, g);
                c.faulting = false;
                injected += mem.failed;
                tally("fault.allocation", mem.failed);
                if (mem.failed) nontrivial();
                else if (!(got == want)) violate("differs-when-repeated", std::string(what) + ": " + show(got) + " instead of " + show(want));
            }
            ev(std::string(what) + " with failing allocation " + N(k) + ": " + N(got.kind) + " " + hex(hash_str(got.text)));
            state(mix(hash_str(what), mix(got.kind * 8 + want.kind, std::min<u64>((u64)k % na, 40))));
            tally(got.kind == 0 ? "faulted calls that gave the normal result" : "faulted calls that failed");
            bool ok = got == want || got.kind == 2 || (got.kind == 4 && file) || got.kind == 3;
            if (!ok) violate(got.kind == 0 ? "wrong-result" : "wrong-error", std::string(what) + " with allocation " + N(k) + " failing gave " + show(got) + " instead of " + show(want));
            if (got.kind == 0 && !repeat) return;
            undo();
        }
        Outcome o = once(f, g);
        if (!(o == want)) violate("differs-when-repeated", std::string(what) + " repeated with memory available gave " + show(o) + " instead of " + show(want));
        if (o.kind) undo();
    }
    std::string tables() { std::string s; for (int i = 0; i < 3; ++i) if (c.t[i]) { std::ostringstream o; o << *c.t[i]; s += o.str() + "|" + N((long long)c.t[i]->options().size()) + ";"; for (auto& x : c.t[i]->options()) s += x->key("") + ","; } return s; }
    static void nothing() {}

    po::value_semantic* semantic(int kind) {
        // attributes are set through the pointer so that a failing setter cannot lose it
        struct Hold { po::value_semantic* s; ~Hold() { delete s; } po::value_semantic* out() { po::value_semantic* r = s; s = 0; return r; } };
        switch (kind) {
        case 1: return po::value<int>();
        case 2: { auto* v = po::value<std::string>(); Hold h = {v}; v->default_value("a default that is longer than any small buffer"); return h.out(); }
        case 3: { auto* v = po::value<std::vector<std::string> >(); Hold h = {v}; v->multitoken(); v->composing(); return h.out(); }
        case 4: return po::bool_switch();
        case 5: { auto* v = po::value<int>(); Hold h = {v}; v->implicit_value(42); v->value_name("a name longer than any small buffer"); return h.out(); }
        case 6: { auto* v = po::value<double>(); Hold h = {v}; v->default_value(0.5, "one half, written out"); return h.out(); }
        case 7: return po::wvalue<std::wstring>();
        case 8: { auto* v = po::value<std::string>(); Hold h = {v}; v->notifier([this](const std::string& s) { Pause p; c.notified.push_back(s); }); return h.out(); }
        case 9: return po::value<boost::optional<int> >();
        case 11: { auto* v = po::value<std::string>(); Hold h = {v}; v->required(); return h.out(); }
        case 12: { auto* v = po::wvalue<std::vector<std::wstring> >(); Hold h = {v}; v->multitoken(); return h.out(); }
        case 13: { auto* v = po::value<std::vector<int> >(); Hold h = {v}; v->default_value(std::vector<int>(40, 3), "forty numbers, written out at some length"); v->composing(); return h.out(); }
        case 14: return po::value<std::string>(&c.target);
        case 15: { auto* v = po::value<std::string>(); Hold h = {v}; v->required(); v->implicit_value("an implicit value of some length", "some"); v->zero_tokens(); return h.out(); }
        default: return po::value<bool>();
        }
    }
    std::string vmap() {
        std::string s;
        for (auto& n : c.names) { s += n + "=" + N((long long)c.vm->count(n)) + (c.vm->count(n) ? ser((*c.vm)[n].value()) + ((*c.vm)[n].defaulted() ? "(default)" : "") : std::string()) + ";"; }
        return s + N((long long)c.vm->size());
    }
    // what notifying the map as it is would do
    std::string probe() {
        std::string s = "|"; std::vector<std::string> keep; keep.swap(c.notified); std::string t = c.target;
        try { po::variables_map m(*c.vm); po::notify(m); for (auto& x : c.notified) s += "<" + x + ">"; s += c.target; }
        catch (std::exception& e) { s += e.what(); }
        c.notified.swap(keep); c.target = t;
        return s;
    }
    po::options_description& T(long i) { i = (unsigned long)i % 3; if (!c.t[i]) c.t[i].reset(new po::options_description("t")); return *c.t[i]; }

    void run(const Plan& plan) {
        const Fault* ft = 0; Fault fst;
        for (auto& l : plan.lines) {
            if (l.op == "oom") { fst.k = std::max(0L, l.num(0)); fst.n = std::max(0L, l.num(1)); fst.mn = std::max(0L, l.num(2)); fst.reps = std::max(1L, std::min(l.num(3, 1), 200L)); ft = &fst; continue; }
            one(l, ft);
            ft = 0;
        }
    }
    void one(const Line& l, const Fault* ft) {
        auto none = [] { return std::string(); };
        if (l.op == "tab") {
            int i = (int)((unsigned long)l.num(0) % 3);
            if (c.t[i]) c.old.push_back(std::move(c.t[i]));
            std::string cap = l.arg(1);
            step("options_description", ft, true, [&] { c.t[i].reset(new po::options_description(cap)); return 0; }, none, nothing);
        } else if (l.op == "opt") {
            std::string spec = l.arg(1).c_str(), d = l.arg(3).c_str(); int kind = (int)((unsigned long)l.num(2) % 16);
            size_t comma = spec.find(','); std::string nm = spec.substr(0, comma);
            size_t last = spec.rfind(',');
            if (nm.empty() || spec[spec.size() - 1] == ',') return;
            if (comma != last && (last == comma + 1 || spec.find(',', comma + 1) != last)) return;
            if (last != std::string::npos && last != comma && spec.size() != last + 2) return;
            for (char ch : nm + (comma == std::string::npos ? std::string() : spec.substr(comma + 1))) if (ch != ',' && ch != '.')  if (!((ch >= 'a' && ch <= 'z') || (ch >= '0' && ch <= '9') || ch == '-' || ch == '.')) return;
            for (auto& x : c.names) if (x == nm) return;
            c.names.push_back(nm);
            po::options_description& t = T(l.num(0));
            std::string before = tables();
            step("add option", ft, false, [&] {
                if (kind == 0) t.add_options()(spec.c_str(), d.c_str());
                else if (d.empty()) t.add_options()(spec.c_str(), semantic(kind));
                else t.add_options()(spec.c_str(), semantic(kind), d.c_str());
                return 0; }, [&] { return tables(); },
                [&] { if (tables() != before) violate("table-inconsistent", "failing to add an option changed the table to " + tables() + " from " + before); });
        } else if (l.op == "group") {
            po::options_description& a = T(l.num(0)); po::options_description& b = T(l.num(1));
            std::string before = tables();
            if (before.size() > 20000) return;
            step("add group", ft, false, [&] { a.add(b); return 0; }, [&] { return tables(); },
                [&] { if (tables() != before) violate("table-inconsistent", "failing to add a group changed the table to " + tables() + " from " + before); });
        } else if (l.op == "copyt") {
            int i = (int)((unsigned long)l.num(0) % 3); po::options_description& a = T(i);
            std::unique_ptr<po::options_description> n;
            step("copy table", ft, true, [&] { n.reset(new po::options_description(a)); return 0; }, [&] { std::ostringstream o; o << *n; return o.str() + tables(); }, nothing);
            c.old.push_back(std::move(c.t[i])); c.t[i] = std::move(n);
            if (!c.t[i]) c.t[i].swap(c.old.back());
        } else if (l.op == "pos") {
            long n = l.num(1); std::string nm = l.arg(0).c_str();
            if (c.closed || n < -1 || n > 50 || nm.empty()) return;
            if (n == -1) c.closed = true;
            auto text = [&] { std::string s = N(c.pos.max_total_count()); unsigned m = std::min(c.pos.max_total_count(), 60u); for (unsigned i = 0; i < m; ++i) s += "," + c.pos.name_for_position(i); return s; };
            std::string before = text();
            step("positional add", ft, false, [&] { c.pos.add(nm.c_str(), (int)n); return 0; }, text, [&] { if (text() != before) violate("table-inconsistent", "failing to add a positional changed " + before + " to " + text()); });
        } else if (l.op == "print") {
            const po::options_description& a = T(l.num(0)); long w = l.num(1); if (w < 0 || w > 30) w = 0;
            std::unique_ptr<std::ostringstream> os; std::string out; bool bad = false;
            Outcome r;
            std::string full; { std::ostringstream o; if (w) a.print(o, (unsigned)w); else o << a; full = o.str(); }
            step("print", ft, true, [&] { { Pause p; os.reset(new std::ostringstream); } if (w) a.print(*os, (unsigned)w); else *os << a; return 0; },
                [&] { bad = !os->good(); out = os->str(); if (!bad) return out; if (full.compare(0, out.size(), out) != 0) violate("wrong-help", "failing print delivered '" + out + "'"); throw std::bad_alloc(); }, nothing);
        } else if (l.op == "find") {
            const po::options_description& a = T(l.num(0)); bool ap = l.num(2) != 0; const po::option_description* d = 0;
            step("find", ft, true, [&] { d = a.find_nothrow(l.arg(1), ap, false, false); return 0; }, [&] { return d ? d->key("") + "/" + d->description() + "/" + d->format_name() + d->format_parameter() : std::string("none"); }, nothing);
            step("find or throw", ft, true, [&] { d = &a.find(l.arg(1), ap); return 0; }, [&] { return d->key(""); }, nothing);
        } else if (l.op == "cmd") {
            std::vector<std::string> a; std::vector<std::wstring> w; for (size_t i = 2; i < l.a.size(); ++i) { a.push_back(l.a[i]); w.push_back(widen(l.a[i])); }
            long m = l.num(0) % 3, f = l.num(1); const po::options_description& d = T(0);
            bool usepos = f & 1, allow = f & 2;
            c.p.reset(); c.wp.reset();
            std::vector<const char*> av; av.push_back("prog"); for (auto& s : a) av.push_back(s.c_str());
            if (m == 1) step("parse wide command line", ft, true, [&] { po::wcommand_line_parser q(w); q.options(d); if (usepos) q.positional(c.pos); if (allow) q.allow_unregistered(); c.wp.reset(new po::wparsed_options(q.run())); return 0; }, [&] { return ser_all(c.wp->utf8_encoded_options) + [&] { std::string s; for (auto& x : c.wp->options) s += ser(x); return s; }(); }, [&] { c.wp.reset(); });
            else if (m == 2) step("parse_command_line", ft, true, [&] { c.p.reset(new po::parsed_options(po::parse_command_line((int)av.size(), &av[0], d))); return 0; }, [&] { return ser_all(*c.p); }, [&] { c.p.reset(); });
            else step("parse command line", ft, true, [&] { po::command_line_parser q(a); q.options(d); if (usepos) q.positional(c.pos); if (allow) q.allow_unregistered(); c.p.reset(new po::parsed_options(q.run())); return 0; }, [&] { return ser_all(*c.p); }, [&] { c.p.reset(); });
        } else if (l.op == "cfg") {
            long m = l.num(0) % 3; bool allow = l.num(1) != 0; std::string text = l.arg(2); const po::options_description& d = T(0);
            c.p.reset(); c.wp.reset();
            std::string full; bool partial_ok;
            // on the caller's stream, a failure may leave the stream bad and settings short
            auto stop = [&](std::string got, bool bad) {
                if (!bad) return got;
                if (!c.faulting) return std::string("stream bad");
                const Outcome& w = ref[at - 1];
                if (w.kind == 0 && w.text.compare(0, got.size(), got) != 0) violate("wrong-settings", "with a failing allocation the stream went bad and gave " + got + " instead of a part of " + w.text);
                throw std::bad_alloc();
            };
            (void)full; (void)partial_ok;
            if (m == 0) { std::unique_ptr<std::istringstream> is; step("parse config stream", ft, true, [&] { { Pause p; is.reset(new std::istringstream(text)); } c.p.reset(new po::parsed_options(po::parse_config_file(*is, d, allow))); return 0; }, [&] { return stop(ser_all(*c.p), is->bad()); }, [&] { c.p.reset(); }); }
            else if (m == 1) { std::unique_ptr<std::wistringstream> is; step("parse wide config stream", ft, true, [&] { { Pause p; is.reset(new std::wistringstream(widen(text))); } c.wp.reset(new po::wparsed_options(po::parse_config_file(*is, d, allow))); return 0; }, [&] { return stop(ser_all(c.wp->utf8_encoded_options), is->bad()); }, [&] { c.wp.reset(); }); }
            else {
                std::string path = make_file(text); int fds = open_fds();
                step("parse config file", ft, true, [&] { c.p.reset(new po::parsed_options(po::parse_config_file(path.c_str(), d, allow))); return 0; }, [&] { return ser_all(*c.p); }, [&] { c.p.reset(); }, true);
                if (open_fds() != fds) violate("descriptor-leak", "parsing a file left a descriptor open");
                close((int)strtol(path.substr(path.rfind('/') + 1).c_str(), 0, 10));
            }
        } else if (l.op == "env") {
            std::string nm; for (char ch : l.arg(0)) nm += (ch >= 'a' && ch <= 'z') ? (char)(ch - 32) : ch;
            for (char& ch : nm) if (ch == '=' || !ch) ch = '_';
            if (nm.empty()) return;
            std::string v = l.arg(1).c_str(), v2 = l.arg(2).c_str();
            std::string e1 = "SIMX_" + nm + "=" + v, e2 = "PATHY=" + v2; char* env[] = {&e1[0], &e2[0], 0};
            extern char** environ; char** keep = environ; const po::options_description& d = T(0);
            c.p.reset(); c.wp.reset();
            step("parse environment", ft, true, [&] { environ = env; struct B { char** k; ~B() { environ = k; } } b = {keep}; c.p.reset(new po::parsed_options(l.num(3) ? po::parse_environment(d, [](const std::string& n) -> std::string { if (n.compare(0, 5, "SIMX_")) return ""; std::string r; for (char ch : n.substr(5)) r += ch >= 'A' && ch <= 'Z' ? (char)(ch + 32) : ch; return r; }) : po::parse_environment(d, std::string("SIMX_")))); return 0; }, [&] { return ser_all(*c.p); }, [&] { c.p.reset(); });
        } else if (l.op == "collect") {
            std::vector<std::string> r; std::vector<std::wstring> w; auto mode = l.num(0) ? po::include_positional : po::exclude_positional;
            if (c.p) step("collect", ft, true, [&] { r = po::collect_unrecognized(c.p->options, mode); return 0; }, [&] { std::string s; for (auto& x : r) s += "<" + x + ">"; return s; }, nothing);
            else if (c.wp) step("collect wide", ft, true, [&] { w = po::collect_unrecognized(c.wp->options, mode); return 0; }, [&] { std::string s; for (auto& x : w) s += "<" + narrow(x) + ">"; return s; }, nothing);
        } else if (l.op == "store") {
            if (!c.p && !c.wp) return;
            std::unique_ptr<po::variables_map> save(new po::variables_map(*c.vm));
            step("store", ft, true, [&] { if (c.p) po::store(*c.p, *c.vm); else po::store(*c.wp, *c.vm); return 0; }, [&] { std::string s = vmap() + probe(); if (c.faulting) c.vm.reset(new po::variables_map(*save)); return s; },
                [&] { // what is left must be usable: look at everything, then go back
                    vmap(); probe(); c.vm.reset(new po::variables_map(*save)); });
        } else if (l.op == "notify") {
            step("notify", ft, true, [&] { { Pause p; c.notified.clear(); } po::notify(*c.vm); return 0; }, [&] { std::string s = vmap() + "!"; for (auto& x : c.notified) s += "<" + x + ">"; return s; }, nothing);
        } else if (l.op == "look") {
            std::string nm = l.arg(0); std::string out;
            step("lookup", ft, true, [&] { const po::variable_value& v = (*c.vm)[nm]; size_t n = c.vm->count(nm); Pause p; out = N((long long)n) + ser(v.value()) + N(v.defaulted()); return 0; }, [&] { return out; }, nothing);
            step("lookup as", ft, true, [&] { const std::string& v = (*c.vm)[nm].as<std::string>(); Pause p; out = v; return 0; }, [&] { return out; }, nothing);
        } else if (l.op == "copyvm") {
            std::unique_ptr<po::variables_map> n;
            step("copy map", ft, true, [&] { n.reset(new po::variables_map(*c.vm)); return 0; }, [&] { n.swap(c.vm); std::string s = vmap(); n.swap(c.vm); return s; }, nothing);
            if (n) c.vm.swap(n);
        } else if (l.op == "chain") { // a map in front of the current one
            std::string nm = l.arg(0), out; std::unique_ptr<po::variables_map> n;
            step("linked map", ft, true, [&] { n.reset(new po::variables_map(c.vm.get())); return 0; }, none, nothing);
            if (n) step("linked lookup", ft, true, [&] { const po::variable_value& v = (*n)[nm]; Pause p; out = ser(v.value()) + N(v.defaulted()); return 0; }, [&] { return out; }, nothing);
            if (n) step("clear", ft, true, [&] { n->clear(); return 0; }, [&] { return N((long long)n->size()); }, nothing);
        } else if (l.op == "hook") {
            std::vector<std::string> a(l.a.begin() + std::min<size_t>(1, l.a.size()), l.a.end()); long m = l.num(0) % 2; const po::options_description& d = T(0);
            c.p.reset(); c.wp.reset();
            auto h = [](const std::string& t) { return t.compare(0, 2, "+:") ? std::pair<std::string, std::string>() : std::make_pair(std::string("verbose"), t.substr(2)); };
            auto st = [](std::vector<std::string>& t) { std::vector<po::option> r; if (!t.empty() && t[0].compare(0, 2, "+:") == 0) { po::option o; o.string_key = "alpha"; o.value.push_back(t[0].substr(2)); o.original_tokens.push_back(t[0]); o.original_tokens.push_back("another token that needs memory of its own"); r.push_back(o); t.erase(t.begin()); } return r; };
            step("parse with hook", ft, true, [&] { po::command_line_parser q(a); q.options(d).allow_unregistered(); if (m) q.extra_parser(h); else q.extra_style_parser(st); c.p.reset(new po::parsed_options(q.run())); return 0; }, [&] { return ser_all(*c.p); }, [&] { c.p.reset(); });
        } else if (l.op == "split") {
            std::vector<std::string> r; std::vector<std::wstring> w; std::string t = l.arg(1); std::wstring wt = widen(t);
            if (l.num(0)) step("split wide", ft, true, [&] { w = po::split_unix(wt); return 0; }, [&] { std::string s; for (auto& x : w) s += "<" + narrow(x) + ">"; return s; }, nothing);
            else step("split", ft, true, [&] { r = po::split_unix(t); return 0; }, [&] { std::string s; for (auto& x : r) s += "<" + x + ">"; return s; }, nothing);
        } else if (l.op == "conv") {
            std::string s, t = l.arg(1); std::wstring w, wt = widen(t); t = narrow(wt);
            long m = l.num(0) & 3;
            step("convert", ft, true, [&] { if (m == 0) w = boost::from_utf8(t); else if (m == 1) s = boost::to_utf8(wt); else if (m == 2) w = boost::from_local_8_bit(t); else s = boost::to_local_8_bit(wt); return 0; }, [&] { return s + narrow(w); }, nothing);
        } else if (l.op == "copyp") {
            std::unique_ptr<po::parsed_options> n; std::unique_ptr<po::wparsed_options> wn;
            if (c.p) { step("copy parsed", ft, true, [&] { n.reset(new po::parsed_options(*c.p)); return 0; }, [&] { return ser_all(*n); }, nothing); if (n) c.p.swap(n); }
            else if (c.wp) { step("copy wide parsed", ft, true, [&] { wn.reset(new po::wparsed_options(*c.wp)); return 0; }, [&] { return ser_all(wn->utf8_encoded_options); }, nothing); if (wn) c.wp.swap(wn); }
        }
    }
};

static void execute(const Plan& p) {
    step_limit = 60000000;
    CvtScript cv; cv.enc = 0;
    install(&cv);
    AtExit<std::function<void()> > reset([] { std::locale::global(std::locale::classic()); });
    std::vector<Outcome> ref; std::vector<u64> al;
    { Exec e; e.run(p); ref = e.ref; al = e.allocs; }
    // memory held for good (caches) may appear once; a second identical pass must not add any
    u64 live = 0, bytes = 0;
    for (int i = 0; i < 2; ++i) {
        u64 injected;
        { Exec e; e.second = true; e.ref = ref; e.allocs = al; e.run(p); injected = e.injected; }
        if (i && mem.live > live) violate("leak", N((long long)(mem.live - live)) + " blocks, " + N((long long)(mem.live_bytes - bytes)) + " bytes stay allocated after each failure");
        live = mem.live; bytes = mem.live_bytes;
        if (!injected) break;
    }
}
const Property sim::PROPERTY = {"C09", generate, execute};
