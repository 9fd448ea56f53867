// C11: character conversion never depends on converter steps and never truncates.
#include "cvt.hpp"
#include <boost/optional.hpp>
#include <boost/program_options.hpp>
#include <boost/program_options/detail/convert.hpp>
#include <deque>
#include <memory>
#include <sstream>
namespace po = boost::program_options;
using namespace sim;

// -- texts in plans are UTF-8
static uint32_t gen_cp(Rng& r, int flavour) {
    switch (flavour == 4 ? r.range(0, 3) : flavour) {
    case 5: return (uint32_t)r.range(0x3000, 0x307f);
    case 0: return (uint32_t)r.range('a', 'z');
    case 1: return (uint32_t)r.range(0x80, 0x7ff);
    case 2: { uint32_t c = (uint32_t)r.range(0x800, 0xfffd); return c >= 0xD800 && c < 0xE000 ? 0x20ac : c; }
    default: return (uint32_t)r.range(0x10000, 0x10ffff);
    }
}
static std::string gen_text(Rng& r) {
    std::string s; int fl = r.range(0, 5), n = r.chance(1, 10) ? 0 : r.chance(1, 3) ? r.range(28, 36) : r.chance(1, 12) ? r.range(100, 700) : (int)r.loguniform(80);
    int lead = r.chance(1, 3) ? r.range(0, 34) : 0;
    for (int i = 0; i < lead; ++i) s += (char)r.range('a', 'z');
    for (int i = 0; i < n; ++i) utf8_put(s, r.chance(1, 40) ? (uint32_t)r.range(0, 127) : gen_cp(r, r.chance(1, 5) ? 4 : fl));
    static const uint32_t edge[] = {0x7f, 0x80, 0x7ff, 0x800, 0xfffd, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 0x7e, 0xff};
    if (r.chance(1, 3)) utf8_put(s, edge[r.below(11)]);
    return s;
}
// how to spoil bytes: kind, position. 0 none, 1 cut at the end, 2 remove a byte, 3 insert a stray byte, 4 replace a byte by FF
static std::string spoil(std::string s, long kind, long pos) {
    if (s.empty() || pos < 0) return s;
    size_t p = (size_t)pos % s.size();
    switch (kind) {
    case 1: s.resize(s.size() - 1 - (size_t)pos % std::min<size_t>(3, s.size())); break;
    case 2: s.erase(p, 1); break;
    case 3: s.insert(p, 1, (char)0x9d); break;
    case 4: s[p] = (char)0xff; break;
    }
    return s;
}
// 1 well-formed, 0 must be rejected, -1 not specified (overlong, surrogates, five byte forms)
static int classify(int enc, const std::string& s, std::wstring& w) {
    if (enc_in(enc, s, w)) return 1;
    if (enc) return 0;
    bool gray = false;
    for (size_t i = 0; i < s.size();) {
        unsigned char b = (unsigned char)s[i];
        int n = b < 0x80 ? 1 : b < 0xC0 ? -1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : b < 0xFC ? 5 : b < 0xFE ? 6 : -1;
        if (n < 0) return gray ? -1 : 0;
        uint32_t c;
        bool structural = false;
        for (int k = 1; k < n; ++k) if (i + k >= s.size() || ((unsigned char)s[i + k] & 0xC0) != 0x80) structural = true;
        if (structural) return gray ? -1 : 0;
        if (Enc::get(0, s.data() + i, s.data() + s.size(), c) <= 0) gray = true;
        i += n;
    }
    return -1;
}
static std::string gen_steps(Rng& r) { return r.chance(1, 3) ? "0" : N(r.chance(1, 2) ? 1 : r.range(1, 40)); }
static void gen_locale(Rng& r, Plan& p, const char* op) {
    std::vector<std::string> a; a.push_back(N(r.chance(1, 12) ? 2 : r.chance(1, 4) ? 3 : r.range(0, 1)));
    a.push_back(N(r.chance(2, 3) ? -1 : r.chance(1, 2) ? r.range(0, 40) : (long)r.loguniform(600))); // fail after
    a.push_back(N(r.range(0, 1) + (r.chance(1, 4) ? 2 : 0)));
    int n = r.chance(1, 4) ? 0 : r.range(1, 6);
    for (int i = 0; i < n; ++i) a.push_back(gen_steps(r));
    p.add(op, a);
}
static Plan generate(Rng& r, int tier) {
    Plan p; gen_locale(r, p, "locale");
    int n = r.range(1, tier ? 12 : 7);
    for (int i = 0; i < n; ++i) {
        if (r.chance(1, 4)) gen_locale(r, p, "locale");
        std::string bad = N(r.chance(3, 5) ? 0 : r.range(1, 4)), pos = N((long)r.loguniform(400));
        switch (r.range(0, 9)) {
        case 0: p.add("from_local", {gen_text(r), bad, pos}); break;
        case 1: p.add("to_local", {gen_text(r), r.chance(1, 4) ? N(r.range(0, 60)) : "-1"}); break;
        case 2: p.add("from_utf8", {gen_text(r), bad, pos}); break;
        case 3: p.add("to_utf8", {gen_text(r)}); break;
        case 4: gen_locale(r, p, "facet"); p.add(r.chance(1, 2) ? "from_8" : "to_8", {gen_text(r), bad, pos}); break;
        default: {
            static const char* src[] = {"wcmd", "cmd", "wcfg", "cfg"};
            std::string k = src[r.range(0, 3)];
            int m = r.range(1, 4);
            bool spoiled = false;
            for (int j = 0; j < m; ++j) { bool s = !spoiled && r.chance(1, 6); spoiled |= s; p.add("item", {N(r.range(0, 5)), gen_text(r), s ? N(r.range(1, 4)) : "0", pos}); }
            if (r.chance(1, 5)) gen_locale(r, p, "locale2"); // between parse and store
            p.add(k);
        }
        }
    }
    return p;
}

struct Items { int opt; std::string text; long bad, pos; };
struct R {
    std::deque<CvtScript> scripts;
    CvtScript* cur; bool classic;
    std::unique_ptr<po::options_description> d;
    R() : cur(0), classic(true) {}
    CvtScript* script(const Line& l) {
        scripts.emplace_back(); CvtScript* s = &scripts.back();
        s->enc = l.num(0) == 1 ? 1 : l.num(0) == 3 ? 2 : 0; s->fail_after = l.num(1, -1); s->once = l.num(2) & 1; s->shy = (l.num(2) & 2) != 0;
        for (size_t i = 3; i < l.a.size(); ++i) s->steps.push_back(l.num(i));
        return s;
    }
    void set(const Line& l) {
        if (l.num(0) == 2) { std::locale::global(std::locale::classic()); classic = true; cur = 0; return; }
        cur = script(l); classic = false; install(cur);
    }
};
// what a conversion of n characters (valid if ok) with script s must do: true if it must fail
static bool must_fail(const CvtScript* s, size_t n) { return s && s->fail_after >= 0 && n > 0 && s->done + (long)n > s->fail_after; }
static bool ascii(const std::string& s) { for (char c : s) if ((unsigned char)c >= 0x80) return false; return true; }
static bool ascii(const std::wstring& s) { for (wchar_t c : s) if ((uint32_t)c >= 0x80) return false; return true; }

static std::string show(const std::string& s) { return N((long long)s.size()) + " bytes " + hex(hash_str(s)) + " '" + esc(s.substr(0, 60)) + "'"; }
static std::string show(const std::wstring& s) { return N((long long)s.size()) + " wide '" + esc(narrow(s.substr(0, 60))) + "'"; }
// want: 1 equal to ref, 0 must throw, -1 no verdict
template<class T, class F> static void check(const char* what, int want, const T& ref, F f) {
    T got; bool threw = false; std::string msg;
    try { got = lib(f); } catch (std::exception& e) { threw = true; msg = e.what(); }
    ev(std::string(what) + " want " + N(want) + (threw ? " threw" : " gave " + show(got)));
    tally(threw ? "conversions failed" : "conversions done");
    state(mix(hash_str(what), mix(want + 1, mix(threw, std::min<size_t>(ref.size() / 8, 12)))));
    if (want == 1 && threw) violate("conversion-rejected", std::string(what) + " of convertible text failed: " + msg);
    if (want == 1 && got != ref) violate("conversion-wrong", std::string(what) + " gave " + show(got) + " instead of " + show(ref));
    if (want == 0 && !threw) violate("bad-text-accepted", std::string(what) + " delivered " + show(got) + " for text that cannot be converted");
}
static const char* OPT[] = {"n", "vn", "w", "vw", "u", "on"};
static bool is_wide(int o) { return o == 2 || o == 3; }
static bool is_list(int o) { return o == 1 || o == 3; }

static void source(R& R_, const std::string& kind, std::vector<Items> items, const Line* relocale) {
    CvtScript* sc = R_.cur;
    bool wide = kind[0] == 'w', cfg = kind.find("cfg") != std::string::npos;
    if (R_.classic) return; // needs an encoding known here
    // Build texts: W is what each item says in wide characters, B the bytes given to a narrow source
    std::set<int> seen; std::vector<Items> use; std::vector<std::wstring> W; std::vector<std::string> B; std::vector<int> valid;
    for (auto& it : items) {
        int o = it.opt;
        if (!is_list(o) && !seen.insert(o).second) continue;
        std::wstring w0 = widen(it.text), w;
        for (wchar_t c : w0) {
            char b[4]; int k = Enc::len(sc->enc, (uint32_t)c); if (!k) continue;
            Enc::put(sc->enc, (uint32_t)c, b);
            bool clean = !(cfg && (c <= 0x20 || c == '#'));
            if (!wide && cfg && k == 1 && ((unsigned char)b[0] <= 0x20 || b[0] == '#')) clean = false;
            if (!wide && !cfg && k == 1 && b[0] == 0) clean = false;
            if (!wide && sc->enc == 2 && Enc::bank((uint32_t)c) >= 0 && ((c & 127) == 0 || (cfg && ((c & 127) <= 0x20 || (c & 127) == '#')))) clean = false;
            w += clean ? c : L'x';
        }
        if (w.empty()) w = L"e";
        std::string b; enc_out(sc->enc, w, b);
        int v = 1;
        if (!wide && it.bad) {
            b = spoil(b, it.bad, it.pos);
            if (b.empty()) b = "e";
            for (char& c : b) if (cfg && ((unsigned char)c <= 0x20 || c == '#')) c = 'y';
            v = classify(sc->enc, b, w);
        }
        use.push_back(it); W.push_back(w); B.push_back(b); valid.push_back(v);
    }
    if (use.empty()) return;
    po::options_description& d = *R_.d;
    po::variables_map vm;
    std::unique_ptr<po::parsed_options> pn; std::unique_ptr<po::wparsed_options> pw;
    // -- parse: nothing here may depend on the local encoding
    try {
        if (wide && !cfg) {
            std::vector<std::wstring> a; for (size_t i = 0; i < use.size(); ++i) a.push_back(widen(std::string("--") + OPT[use[i].opt] + "=") + W[i]);
            lib([&] { pw.reset(new po::wparsed_options(po::wcommand_line_parser(a).options(d).run())); return 0; });
            for (size_t i = 0; i < use.size() && i < pw->options.size(); ++i) if (pw->options[i].original_tokens.size() != 1 || pw->options[i].original_tokens[0] != a[i]) violate("wide-parse-wrong", "original token " + N((long long)i));
        } else if (wide) {
            std::wstring t; for (size_t i = 0; i < use.size(); ++i) t += widen(OPT[use[i].opt]) + L" = " + W[i] + L"\n";
            std::wistringstream is(t);
            lib([&] { pw.reset(new po::wparsed_options(po::parse_config_file(is, d))); return 0; });
        } else if (!cfg) {
            std::vector<std::string> a; for (size_t i = 0; i < use.size(); ++i) a.push_back(std::string("--") + OPT[use[i].opt] + "=" + B[i]);
            lib([&] { pn.reset(new po::parsed_options(po::command_line_parser(a).options(d).run())); return 0; });
        } else {
            std::string t; for (size_t i = 0; i < use.size(); ++i) t += std::string(OPT[use[i].opt]) + " = " + B[i] + "\n";
            std::istringstream is(t);
            lib([&] { pn.reset(new po::parsed_options(po::parse_config_file(is, d))); return 0; });
        }
    } catch (std::exception& e) { violate("parse-rejected", kind + ": " + e.what()); }
    size_t cnt = pw ? pw->options.size() : pn->options.size();
    if (cnt != use.size()) violate("parse-wrong", N((long long)cnt) + " options instead of " + N((long long)use.size()));
    for (size_t i = 0; i < use.size(); ++i) {
        if (pw) { if (pw->options[i].value.size() != 1 || pw->options[i].value[0] != W[i]) violate("wide-parse-wrong", kind + " value " + N((long long)i) + " is " + (pw->options[i].value.empty() ? "missing" : show(pw->options[i].value[0])) + " instead of " + show(W[i])); }
        else if (pn->options[i].value.size() != 1 || pn->options[i].value[0] != B[i]) violate("narrow-parse-wrong", kind + " value " + N((long long)i));
    }
    // -- the locale may change before the store
    int enc0 = sc->enc;
    if (relocale) { R_.set(*relocale); if (R_.classic) return; sc = R_.cur; }
    // expected content, converting in the order of the items
    std::map<int, std::vector<std::wstring> > ew; std::map<int, std::vector<std::string> > en;
    long done = sc->done; bool fails = false, gray = false;
    for (size_t i = 0; i < use.size() && !fails; ++i) {
        int o = use[i].opt;
        if (wide && is_wide(o)) { ew[o].push_back(W[i]); continue; }        // UTF-8 inside: local encoding not involved
        if (!wide && !is_wide(o)) { en[o].push_back(B[i]); continue; }      // taken as it is
        size_t n; std::wstring w; std::string b; int v;
        if (wide) { v = enc_out(sc->enc, W[i], b); n = W[i].size(); }
        else { v = sc->enc == enc0 ? valid[i] : classify(sc->enc, B[i], w); if (v == 1) enc_in(sc->enc, B[i], w); n = w.size(); }
        if (v == -1) { gray = true; break; }
        if (v == 0 || (sc->fail_after >= 0 && n > 0 && done + (long)n > sc->fail_after)) { fails = true; break; }
        done += (long)n;
        if (wide) en[o].push_back(b); else ew[o].push_back(w);
    }
    bool threw = false; std::string msg;
    try { lib([&] { if (pw) po::store(*pw, vm); else po::store(*pn, vm); return 0; }); } catch (std::exception& e) { threw = true; msg = e.what(); }
    ev(kind + " store " + N((long long)use.size()) + " items, " + (threw ? "threw" : "stored") + (fails ? ", must fail" : ""));
    tally(threw ? "stores failed" : "stores done");
    state(mix(hash_str(kind), mix(fails * 2 + threw, mix(use.size(), sc->steps.size()))));
    if (gray) return;
    if (threw && !fails) violate("conversion-rejected", kind + ": storing convertible text failed: " + msg);
    if (!threw && fails) violate("bad-text-accepted", kind + ": text that cannot be converted was stored");
    for (int o = 0; o < 6; ++o) {
        bool has = vm.count(OPT[o]) != 0 && !vm[OPT[o]].empty();
        bool want = ew.count(o) || en.count(o);
        if (!has) { if (want && !threw) violate("value-missing", std::string(OPT[o]) + " has no value"); continue; }
        if (!want) violate("value-invented", std::string(OPT[o]) + " has a value");
        const po::variable_value& v = vm[OPT[o]];
        std::vector<std::string> gn; std::vector<std::wstring> gw;
        try {
            switch (o) {
            case 0: case 4: gn.push_back(v.as<std::string>()); break;
            case 1: gn = v.as<std::vector<std::string> >(); break;
            case 2: gw.push_back(v.as<std::wstring>()); break;
            case 3: gw = v.as<std::vector<std::wstring> >(); break;
            case 5: gn.push_back(*v.as<boost::optional<std::string> >()); break;
            }
        } catch (std::exception& e) { violate("value-wrong", std::string(OPT[o]) + " has another type"); }
        bool ok = is_wide(o) ? gw == ew[o] : gn == en[o];
        if (!ok && threw && is_list(o)) { // stopped part way: a prefix of what was given
            if (is_wide(o)) ok = gw.size() <= ew[o].size() && std::equal(gw.begin(), gw.end(), ew[o].begin());
            else ok = gn.size() <= en[o].size() && std::equal(gn.begin(), gn.end(), en[o].begin());
        }
        if (!ok) {
            std::string g, e; for (auto& x : gn) g += show(x); for (auto& x : gw) g += show(x);
            for (auto& x : en[o]) e += show(x);
            for (auto& x : ew[o]) e += show(x);
            violate("value-wrong", kind + ": " + OPT[o] + " is " + g + " instead of " + e);
        }
    }
    nontrivial();
}

static void execute(const Plan& p) {
    step_limit = 20000000;
    R r;
    r.d.reset(new po::options_description("o"));
    r.d->add_options()
        ("n", po::value<std::string>(), "")("vn", po::value<std::vector<std::string> >()->composing(), "")
        ("w", po::wvalue<std::wstring>(), "")("vw", po::wvalue<std::vector<std::wstring> >()->composing(), "")
        ("u", new po::untyped_value(), "")("on", po::value<boost::optional<std::string> >(), "");
    std::vector<Items> items; const Line* l2 = 0; const Line* facet = 0;
    AtExit<std::function<void()> > reset([] { std::locale::global(std::locale::classic()); });
    for (auto& l : p.lines) {
        if (l.op == "locale") r.set(l);
        else if (l.op == "locale2") l2 = &l;
        else if (l.op == "facet") facet = &l;
        else if (l.op == "item") { Items i = {(int)((unsigned long)l.num(0) % 6), l.arg(1), l.num(2), l.num(3)}; items.push_back(i); }
        else if (l.op == "wcmd" || l.op == "cmd" || l.op == "wcfg" || l.op == "cfg") { source(r, l.op, items, l2); items.clear(); l2 = 0; }
        else if (l.op == "from_utf8") {
            std::string s = spoil(narrow(widen(l.arg(0))), l.num(1), l.num(2)); std::wstring w;
            int c = classify(0, s, w);
            nontrivial();
            check<std::wstring>("from_utf8", c, w, [&] { return boost::from_utf8(s); });
        }
        else if (l.op == "to_utf8") {
            std::wstring w = widen(l.arg(0));
            nontrivial();
            check<std::string>("to_utf8", 1, narrow(w), [&] { return boost::to_utf8(w); });
        }
        else if (l.op == "from_local" || l.op == "from_8") {
            bool own = l.op == "from_8";
            std::wstring w0 = widen(l.arg(0)), w; std::string s;
            CvtScript* sc = r.cur;
            if (own) { if (!facet || facet->num(0) == 2) continue; sc = r.script(*facet); }
            if (!sc) { s = l.arg(0); if (!ascii(s)) continue; check<std::wstring>("from_local (C)", 1, widen(s), [&] { return boost::from_local_8_bit(s); }); continue; }
            enc_out(sc->enc, w0, s); // stops at what cannot be encoded
            s = spoil(s, l.num(1), l.num(2));
            int c = classify(sc->enc, s, w);
            if (c == -1) continue;
            if (c == 1 && must_fail(sc, w.size())) c = 0;
            if (!sc->steps.empty() || c == 0) nontrivial();
            if (own) { SimCvt cv(sc, 1); check<std::wstring>("from_8_bit", c, w, [&] { return boost::from_8_bit(s, cv); }); }
            else check<std::wstring>("from_local_8_bit", c, w, [&] { return boost::from_local_8_bit(s); });
        }
        else if (l.op == "to_local" || l.op == "to_8") {
            bool own = l.op == "to_8";
            std::wstring w = widen(l.arg(0)); std::string s;
            CvtScript* sc = r.cur;
            if (own) { if (!facet || facet->num(0) == 2) continue; sc = r.script(*facet); }
            if (!sc) { if (!ascii(w)) continue; check<std::string>("to_local (C)", 1, narrow(w), [&] { return boost::to_local_8_bit(w); }); continue; }
            if (!own && l.num(1, -1) >= 0) w.insert(std::min(w.size(), (size_t)l.num(1)), 1, (wchar_t)0x110000); // no encoding has this
            int c = enc_out(sc->enc, w, s) ? 1 : 0;
            if (c && must_fail(sc, w.size())) c = 0;
            if (!sc->steps.empty() || c == 0) nontrivial();
            if (own) { SimCvt cv(sc, 1); check<std::string>("to_8_bit", c, s, [&] { return boost::to_8_bit(w, cv); }); }
            else check<std::string>("to_local_8_bit", c, s, [&] { return boost::to_local_8_bit(w); });
        }
    }
}
const Property sim::PROPERTY = {"C11", generate, execute};
