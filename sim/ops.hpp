// The operations shared by the simulations of threads (C08) and of nested calls (C25): objects
// that are built once and only read, and operations on them and on objects of one's own, each
// of which sums up in a string all it returned, threw or printed.
#ifndef SIM_OPS_HPP
#define SIM_OPS_HPP
#include "cvt.hpp"
#include <boost/program_options.hpp>
#include <boost/program_options/detail/convert.hpp>
#include <algorithm>
#include <memory>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
extern char** environ;
namespace po = boost::program_options;
using namespace sim;

// ------------------------------------------------------------------ shared objects and generation
struct SOpt { const char* spec; const char* name; int kind; };
static const SOpt OPTS[] = {
    {"alpha,a", "alpha", 1}, {"beta", "beta", 2}, {"list,l", "list", 3}, {"flag,f", "flag", 4}, {"gamma", "gamma", 5}, {"onoff,o", "onoff", 6},
    {"wide,w", "wide", 7}, {"plain,p", "plain", 0}, {"alphabet", "alphabet", 2}, {"need", "need", 8}, {"sec.key", "sec.key", 2}, {"wild.*", "wild.*", 2},
    {"LongName,L", "LongName", 9}, {"vint", "vint", 10}, {"note,n", "note", 11},
    {"user,u", "user", 12}, {"xtract,x", "xtract", 13}, {"custom,c", "custom", 14}, {"users", "users", 15},
};
static const int NOPT = sizeof(OPTS) / sizeof(OPTS[0]);
static std::string val(Rng& r, int kind) {
    if (r.chance(1, 10)) return r.chance(1, 2) ? "bad%value%" : "12x";
    switch (kind) {
    case 1: case 5: case 10: case 13: return N(r.range(-9, 99999));
    case 6: { static const char* b[] = {"yes", "NO", "1", "off", "true", "On"}; return b[r.below(6)]; }
    case 7: return r.chance(1, 2) ? "w\xc3\xa9\xe2\x82\xac" "de" : "wide value that is longer than thirty-two characters";
    default: return "v" + N(r.range(0, 999)) + (r.chance(1, 3) ? "-longer-than-a-small-string-buffer" : "");
    }
}
static std::vector<std::string> tokens(Rng& r) {
    std::vector<std::string> a; int n = r.range(0, 4);
    for (int i = 0; i < n; ++i) {
        const SOpt& o = OPTS[r.below(NOPT)]; std::string nm = o.name;
        if (nm == "wild.*") nm = "wild.x" + N(r.range(0, 3));
        if (r.chance(1, 9)) { a.push_back(r.chance(1, 2) ? "--nope" + N(r.range(0, 9)) : "item" + N(r.range(0, 9))); continue; }
        if (r.chance(1, 5)) nm = nm.substr(0, (size_t)r.range(2, 8));
        if (o.kind == 0 || o.kind == 4) { a.push_back("--" + nm); continue; }
        const char* c = strchr(o.spec, ',');
        if (c && r.chance(1, 3)) { a.push_back(std::string("-") + c[1] + (r.chance(1, 2) ? val(r, o.kind) : "")); if (a.back().size() == 2) a.push_back(val(r, o.kind)); }
        else if (r.chance(1, 2)) a.push_back("--" + nm + "=" + val(r, o.kind));
        else { a.push_back("--" + nm); if (r.chance(5, 6)) a.push_back(val(r, o.kind)); }
    }
    return a;
}
static std::string ini(Rng& r) {
    std::string s; int n = r.range(0, 4);
    for (int i = 0; i < n; ++i) {
        if (r.chance(1, 6)) s += "[sec]\nkey = " + val(r, 2) + "\n[]\n";
        const SOpt& o = OPTS[r.below(NOPT)]; std::string nm = o.name; if (nm == "wild.*") nm = "wild.q";
        s += r.chance(1, 10) ? "bogus" + N(i) + "=1\n" : r.chance(1, 14) ? "not a setting\n" : nm + " = " + val(r, o.kind) + " # c\n";
    }
    return s;
}
static const char* OPNAME[] = {"cmd", "wcmd", "cfg", "wcfg", "env", "storeP", "lookV", "print", "find", "copyT", "copyP", "copyV", "split", "conv", "collect", "own", "chain", "format", "error", "cmdstore", "envstore", "pos", "file", "hook"};
static const int NOPS = sizeof(OPNAME) / sizeof(OPNAME[0]);
static void gen_op(Rng& r, Plan& p, int th, int op) {
    std::vector<std::string> a; a.push_back(N(th)); a.push_back(OPNAME[op]); a.push_back(N(r.range(0, 7)));
    std::string o = OPNAME[op];
    if (o == "hook" || o == "cmd" || o == "wcmd" || o == "cmdstore" || o == "own" || o == "chain") { std::vector<std::string> t = tokens(r); if ((o == "own" || o == "cmdstore" || o == "chain") && r.chance(2, 3)) t.insert(t.begin(), "--need=" + val(r, 8)); a.insert(a.end(), t.begin(), t.end()); }
    else if (o == "cfg" || o == "wcfg") a.push_back(ini(r));
    else if (o == "lookV" || o == "find") a.push_back(r.chance(1, 6) ? "missing" : OPTS[r.below(NOPT)].name);
    else if (o == "split") a.push_back("a 'b c' \"d\\\"e\" " + val(r, 2) + (r.chance(1, 6) ? " 'x" : ""));
    else if (o == "conv") a.push_back(val(r, 7));
    else if (o == "error") a.push_back(val(r, 2));
    p.add("op", a);
}
// ------------------------------------------------------------------ execution
struct TlCvt : SimCvt { // a stateless converter: nothing shared between threads
    TlCvt() : SimCvt(0) {}
    CvtScript* S() const { static thread_local CvtScript s; return &s; }
};
// ------------------------------------------------------------------ callbacks of the library
// Each of them is a place from which the user may call the library again (C25).
typedef void (*PointFn)(const char* where);
static thread_local PointFn point_fn;
static inline void point(const char* where) { if (point_fn) { Pause p; point_fn(where); } }
static thread_local std::string* note_log;
static void note(const std::string& s) { point("notifier"); Pause p; if (note_log) *note_log += "note(" + s + ")"; }
struct PtCvt : TlCvt {
    result do_in(state_type& st, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const { point("decode"); return TlCvt::do_in(st, f, fe, fn, t, te, tn); }
    result do_out(state_type& st, const wchar_t* f, const wchar_t* fe, const wchar_t*& fn, char* t, char* te, char*& tn) const { point("encode"); return TlCvt::do_out(st, f, fe, fn, t, te, tn); }
};
template<class C> struct PtSource : std::basic_streambuf<C> {
    typedef std::char_traits<C> T;
    std::basic_string<C> s; size_t pos, n;
    PtSource(const std::basic_string<C>& t, size_t n) : s(t), pos(0), n(n) {}
    typename T::int_type underflow() {
        point("stream source"); Pause p;
        if (pos >= s.size()) return T::eof();
        size_t k = std::min(n, s.size() - pos); C* b = &s[0] + pos; pos += k;
        this->setg(b, b, b + k);
        return T::to_int_type(*b);
    }
};
struct PtSink : std::streambuf {
    std::string got;
    int_type overflow(int_type c) { point("stream sink"); Pause p; if (c != traits_type::eof()) got += (char)c; return traits_type::not_eof(c); }
    std::streamsize xsputn(const char* t, std::streamsize n) { point("stream sink"); Pause p; got.append(t, (size_t)n); return n; }
};
struct UType { // copied and converted by user code
    std::string s;
    UType() {}
    explicit UType(const std::string& s) : s(s) {}
    UType(const UType& o) : s(o.s) { point("value copy"); }
    UType& operator=(const UType& o) { s = o.s; return *this; }
};
static void validate(boost::any& v, const std::vector<std::string>& xs, UType*, int) {
    point("validator");
    po::validators::check_first_occurrence(v);
    std::string s = po::validators::get_single_string(xs);
    if (s.compare(0, 3, "bad") == 0) throw po::validation_error(po::validation_error::invalid_option_value);
    v = boost::any(UType("u:" + s));
}
struct SType { int v; };
static std::istream& operator>>(std::istream& is, SType& t) { point("extraction"); return is >> t.v; }
static std::ostream& operator<<(std::ostream& os, const SType& t) { point("insertion"); return os << t.v; }
struct CSem : po::value_semantic { // an option kind of the user's own
    std::string name() const { point("semantic name"); Pause p; return "custom"; }
    unsigned min_tokens() const { point("semantic min_tokens"); return 1; }
    unsigned max_tokens() const { point("semantic max_tokens"); return 2; }
    bool is_composing() const { point("semantic is_composing"); return false; }
    bool is_required() const { point("semantic is_required"); return false; }
    void parse(boost::any& v, const std::vector<std::string>& t, bool utf8) const {
        point("semantic parse"); Pause p;
        std::string s = utf8 ? "8:" : "";
        for (auto& x : t) { if (x.compare(0, 3, "bad") == 0) throw po::validation_error(po::validation_error::invalid_option_value, "custom", x); s += x + ";"; }
        v = boost::any(s);
    }
    bool apply_default(boost::any& v) const { point("semantic default"); Pause p; v = boost::any(std::string("none")); return true; }
    void notify(const boost::any& v) const { point("semantic notify"); Pause p; if (note_log) if (auto* s = boost::any_cast<std::string>(&v)) *note_log += "custom(" + *s + ")"; }
};
struct UMap : po::abstract_variables_map { // a map of the user's own, asked where a variables_map has nothing better
    po::variable_value v, none;
    UMap() : v(boost::any(std::string("of the user")), false) {}
    const po::variable_value& get(const std::string& n) const { point("user map"); Pause p; return n == "gamma" || n == "xtract" ? none : v; }
};
static void add_options(po::options_description& d, int from, int to) {
    for (int i = from; i < to; ++i) {
        const SOpt& o = OPTS[i]; std::string ds = std::string("describes ") + o.name + " in a text long enough to be wrapped at the end of a line, and more";
        switch (o.kind) {
        case 0: d.add_options()(o.spec, ds.c_str()); break;
        case 1: d.add_options()(o.spec, po::value<int>()->default_value(17), ds.c_str()); break;
        case 2: d.add_options()(o.spec, po::value<std::string>()->value_name("name"), ds.c_str()); break;
        case 3: d.add_options()(o.spec, po::value<std::vector<std::string> >()->composing()->multitoken(), ds.c_str()); break;
        case 4: d.add_options()(o.spec, po::bool_switch(), ds.c_str()); break;
        case 5: d.add_options()(o.spec, po::value<int>()->implicit_value(3)->default_value(4), ds.c_str()); break;
        case 6: d.add_options()(o.spec, po::value<bool>()->implicit_value(true), ds.c_str()); break;
        case 7: d.add_options()(o.spec, po::wvalue<std::wstring>(), ds.c_str()); break;
        case 8: d.add_options()(o.spec, po::value<std::string>()->required(), ds.c_str()); break;
        case 9: d.add_options()(o.spec, po::value<double>()->default_value(1.5, "one and a half"), ds.c_str()); break;
        case 10: d.add_options()(o.spec, po::value<std::vector<int> >(), ds.c_str()); break;
        case 12: d.add_options()(o.spec, po::value<UType>(), ds.c_str()); break;
        case 13: d.add_options()(o.spec, po::value<SType>()->default_value(SType{7})->value_name("number"), ds.c_str()); break;
        case 14: d.add_options()(o.spec, new CSem, ds.c_str()); break;
        case 15: d.add_options()(o.spec, po::value<std::vector<UType> >()->composing(), ds.c_str()); break;
        default: d.add_options()(o.spec, po::value<std::string>()->default_value("quiet")->notifier(note), ds.c_str()); break;
        }
    }
}
static int more; // further options, so that tables may be large
static void add_more(po::options_description& d) { for (int i = 0; i < more; ++i) d.add_options()(("extra-" + N(i * 37 % 64)).c_str(), po::value<std::string>(), "one more"); }
static std::string file_name;
struct Shared {
    std::unique_ptr<po::options_description> d; po::positional_options_description pos;
    std::unique_ptr<po::parsed_options> p; std::unique_ptr<po::variables_map> v;
};
static std::string ser(const po::option& x) { std::string s = "{" + x.string_key + "," + N(x.position_key) + "," + N(x.unregistered) + ":"; for (auto& v : x.value) s += "<" + v + ">"; s += "/"; for (auto& v : x.original_tokens) s += "<" + v + ">"; return s + "}"; }
static std::string ser(const po::woption& x) { std::string s = "{" + x.string_key + ":"; for (auto& v : x.value) s += "<" + narrow(v) + ">"; s += "/"; for (auto& v : x.original_tokens) s += "<" + narrow(v) + ">"; return s + "}"; }
template<class P> static std::string ser_all(const P& p) { std::string s; for (auto& x : p.options) s += ser(x); return s; }
static std::string ser_any(const boost::any& a) {
    std::ostringstream o;
    if (a.empty()) return "none";
    if (auto* v = boost::any_cast<int>(&a)) o << *v; else if (auto* v = boost::any_cast<std::string>(&a)) o << *v; else if (auto* v = boost::any_cast<bool>(&a)) o << *v; else if (auto* v = boost::any_cast<double>(&a)) o << *v;
    else if (auto* v = boost::any_cast<std::wstring>(&a)) o << narrow(*v);
    else if (auto* v = boost::any_cast<std::vector<std::string> >(&a)) for (auto& x : *v) o << "<" << x << ">";
    else if (auto* v = boost::any_cast<std::vector<int> >(&a)) for (auto& x : *v) o << "<" << x << ">";
    else if (auto* v = boost::any_cast<UType>(&a)) o << v->s; else if (auto* v = boost::any_cast<SType>(&a)) o << v->v;
    else if (auto* v = boost::any_cast<std::vector<UType> >(&a)) for (auto& x : *v) o << "<" << x.s << ">";
    else o << "?";
    return o.str();
}
static std::string look(const po::variables_map& m, const std::string& n) {
    const po::variable_value* v = 0; size_t c = 0;
    lib([&] { v = &m[n]; c = m.count(n); return 0; });
    return n + "=" + N((long long)c) + ser_any(v->value()) + (v->defaulted() ? "d" : "") + ";";
}
static std::string whole(const po::variables_map& m) { std::string s; for (int i = 0; i < NOPT; ++i) s += look(m, OPTS[i].name); return s; }

// a map which is being stored into or notified may be read by the callbacks made meanwhile
static thread_local const po::variables_map* cur_map; static thread_local const std::string* cur_whole;
struct Cur { const po::variables_map* m; const std::string* w; Cur(const po::variables_map& x, const std::string* y) : m(cur_map), w(cur_whole) { cur_map = &x; cur_whole = y; } ~Cur() { cur_map = m; cur_whole = w; } };
static void store_in(const po::parsed_options& r, po::variables_map& m) { Cur c(m, 0); lib([&] { po::store(r, m); return 0; }); }
static void notify_in(po::variables_map& m) { std::string w = whole(m); Cur c(m, &w); lib([&] { po::notify(m); return 0; }); }
static std::string peek() {
    if (!cur_map) return "as before";
    const po::variables_map& m = *cur_map; const std::string* was = cur_whole;
    std::string w = whole(m);
    return !was || w == *was ? "as before" : "while notified, the map holds " + w + " instead of " + *was;
}
static std::string run_op(Shared& sh, const Line& l) {
    std::string op = l.arg(1), out, log; long f = l.num(2);
    struct NoteLog { std::string* was; NoteLog(std::string* l) : was(note_log) { note_log = l; } ~NoteLog() { note_log = was; } } nl(&log);
    std::vector<std::string> a; for (size_t i = 3; i < l.a.size(); ++i) a.push_back(l.a[i]);
    std::vector<std::wstring> w; for (auto& x : a) w.push_back(widen(x));
    const std::string& t = l.arg(3);
    const po::options_description* d = sh.d.get();
    const po::variables_map* V = sh.v.get();
    std::unique_ptr<po::options_description> own;
    try {
    if (!d || op == "own") { // nothing shared: a table of this thread's own
        lib([&] { own.reset(new po::options_description("Own")); return 0; });
        lib([&] { add_options(*own, 0, NOPT); add_more(*own); return 0; });
        d = own.get();
    }
    int style = f & 1 ? (int)po::command_line_style::unix_style : (int)(po::command_line_style::unix_style & ~po::command_line_style::allow_guessing) | po::command_line_style::case_insensitive;
        if (op == "peek") out = peek();
        else if (op == "cmd" || op == "own" || op == "cmdstore" || op == "chain") {
            std::unique_ptr<po::parsed_options> r;
            lib([&] { po::command_line_parser q(a); q.options(*d).style(style); if (f & 2) q.allow_unregistered(); if (f & 4) q.positional(sh.pos); r.reset(new po::parsed_options(q.run())); return 0; });
            out = ser_all(*r);
            if (op != "cmd") {
                po::variables_map m;
                UMap um;
                if (op == "chain" && (f & 1)) lib([&] { m.next(&um); return 0; });
                else if (op == "chain" && V) lib([&] { m.next(const_cast<po::variables_map*>(V)); return 0; });
                store_in(*r, m);
                if (f & 2) store_in(*r, m); // changes nothing but what composes
                out += whole(m);
                notify_in(m);
                out += whole(m);
            }
        } else if (op == "wcmd") {
            std::unique_ptr<po::wparsed_options> r;
            lib([&] { po::wcommand_line_parser q(w); q.options(*d).style(style); if (f & 2) q.allow_unregistered(); r.reset(new po::wparsed_options(q.run())); return 0; });
            out = ser_all(*r);
        } else if (op == "cfg") {
            PtSource<char> sb(t, f & 4 ? 2 : 30); std::istream is(&sb); if (f & 1) is.exceptions(std::ios::badbit); std::unique_ptr<po::parsed_options> r;
            lib([&] { r.reset(new po::parsed_options(po::parse_config_file(is, *d, (f & 2) != 0))); return 0; });
            out = ser_all(*r);
        } else if (op == "wcfg") {
            PtSource<wchar_t> sb(widen(t), f & 4 ? 2 : 30); std::wistream is(&sb); if (f & 1) is.exceptions(std::ios::badbit); std::unique_ptr<po::wparsed_options> r;
            lib([&] { r.reset(new po::wparsed_options(po::parse_config_file(is, *d, (f & 2) != 0))); return 0; });
            out = ser_all(*r);
        } else if (op == "file") {
            if (f & 1) { std::unique_ptr<po::parsed_options> r; lib([&] { r.reset(new po::parsed_options(po::parse_config_file<char>(file_name.c_str(), *d, (f & 2) != 0))); return 0; }); out = ser_all(*r); }
            else { std::unique_ptr<po::wparsed_options> r; lib([&] { r.reset(new po::wparsed_options(po::parse_config_file<wchar_t>(file_name.c_str(), *d, (f & 2) != 0))); return 0; }); out = ser_all(*r); }
        } else if (op == "hook") {
            std::unique_ptr<po::parsed_options> r;
            lib([&] {
                po::command_line_parser q(a); q.options(*d).style(style).allow_unregistered();
                if (f & 1) q.extra_parser([](const std::string& t) { point("extra parser"); Pause p; return t.compare(0, 4, "item") == 0 ? std::make_pair(std::string("beta"), t) : std::make_pair(std::string(), std::string()); });
                else q.extra_style_parser([](std::vector<std::string>& v) { point("style parser"); Pause p; std::vector<po::option> r; if (v[0].compare(0, 4, "item") == 0) { r.push_back(po::option("beta", std::vector<std::string>(1, v[0]))); v.erase(v.begin()); } return r; });
                r.reset(new po::parsed_options(q.run())); return 0; });
            out = ser_all(*r);
        } else if (op == "env" || op == "envstore") {
            std::unique_ptr<po::parsed_options> r;
            if (f & 1) lib([&] { r.reset(new po::parsed_options(po::parse_environment(*d, [](std::string n) { point("name mapper"); Pause p; std::string k; if (n.compare(0, 5, "SIMX_") == 0) for (size_t i = 5; i < n.size(); ++i) k += (char)tolower(n[i]); return k; }))); return 0; });
            else lib([&] { r.reset(new po::parsed_options(po::parse_environment(*d, std::string("SIMX_")))); return 0; });
            out = ser_all(*r);
            if (op == "envstore") { po::variables_map m; store_in(*r, m); out += whole(m); notify_in(m); }
        } else if (op == "storeP") {
            po::variables_map m;
            if (sh.p) store_in(*sh.p, m);
            out = whole(m);
            notify_in(m);
        } else if (op == "lookV") {
            if (V) { out = look(*V, t); if (f & 1) out += whole(*V); if (f & 2) out += lib([&] { return (*V)[t].as<std::string>(); }); }
        } else if (op == "print") {
            PtSink sb; std::ostream os(&sb); if (f & 2) os.exceptions(std::ios::badbit);
            try { lib([&] { if (f & 1) d->print(os, 18); else os << *d; return 0; }); } catch (...) { out = sb.got; throw; }
            out = sb.got;
        } else if (op == "find") {
            const po::option_description* o = lib([&] { return &d->find(t, (f & 1) != 0, (f & 2) != 0, false); });
            out = lib([&] { return o->key(t) + o->format_name(); });
        } else if (op == "copyT") {
            std::unique_ptr<po::options_description> c, e;
            lib([&] { c.reset(new po::options_description(*d)); return 0; });
            lib([&] { c->add_options()("extra", po::value<int>(), "extra"); return 0; });
            lib([&] { e.reset(new po::options_description("E")); e->add(*d); return 0; });
            std::ostringstream os; lib([&] { os << *c << *e; return 0; });
            out = os.str();
        } else if (op == "copyP") {
            if (sh.p) { std::unique_ptr<po::parsed_options> c; lib([&] { c.reset(new po::parsed_options(*sh.p)); return 0; }); out = ser_all(*c); }
            if (f & 1) { po::positional_options_description c = lib([&] { return po::positional_options_description(sh.pos); }); lib([&] { c.add("beta", 1); return 0; }); out += N(c.max_total_count()); }
        } else if (op == "copyV") {
            if (V) { po::variables_map c = lib([&] { return po::variables_map(*V); }); out = whole(c); lib([&] { c.clear(); return 0; }); out += whole(c); }
        } else if (op == "split") {
            if (f & 1) { std::vector<std::string> r = lib([&] { return po::split_unix(t); }); for (auto& x : r) out += "<" + x + ">"; }
            else { std::wstring wt = widen(t); std::vector<std::wstring> r = lib([&] { return po::split_unix(wt); }); for (auto& x : r) out += "<" + narrow(x) + ">"; }
        } else if (op == "conv") {
            std::wstring wt = widen(t);
            out = lib([&] { return boost::to_utf8(wt); }) + "|" + narrow(lib([&] { return boost::from_utf8(t); })) + "|" + lib([&] { return boost::to_local_8_bit(wt); }) + "|" + narrow(lib([&] { return boost::from_local_8_bit(t); }));
        } else if (op == "collect") {
            if (sh.p) { std::vector<std::string> r = lib([&] { return po::collect_unrecognized(sh.p->options, f & 1 ? po::include_positional : po::exclude_positional); }); for (auto& x : r) out += "<" + x + ">"; }
        } else if (op == "format") {
            for (auto& o : d->options()) out += lib([&] { return o->format_name() + "|" + o->format_parameter() + "|" + o->canonical_display_name(po::command_line_style::allow_dash_for_short) + "|" + o->long_name() + N((long long)o->semantic()->max_tokens()); });
        } else if (op == "error") {
            std::string s = t;
            switch (f) {
            case 0: { po::invalid_option_value e = lib([&] { return po::invalid_option_value(s); }); out = lib([&] { return std::string(e.what()); }); break; }
            case 1: lib([&]() -> int { throw po::validation_error(po::validation_error::multiple_values_not_allowed, "alpha", s); });
            case 2: lib([&]() -> int { throw po::invalid_command_line_syntax(po::invalid_command_line_syntax::missing_parameter, s, "--" + s, 1); });
            case 3: { po::ambiguous_option e = lib([&] { std::vector<std::string> v; v.push_back("one"); v.push_back(s); return po::ambiguous_option(v); }); out = lib([&] { return std::string(e.what()); }); break; }
            case 4: lib([&]() -> int { throw po::required_option(s); });
            case 5: lib([&]() -> int { throw po::invalid_config_file_syntax(s, po::invalid_syntax::unrecognized_line); });
            case 6: lib([&]() -> int { throw po::reading_file(s.c_str()); });
            default: lib([&]() -> int { throw po::unknown_option(s); });
            }
        } else if (op == "pos") {
            unsigned n = lib([&] { return sh.pos.max_total_count(); }); out = N(n);
            for (unsigned i = 0; i < 4 && i < n; ++i) out += lib([&] { return sh.pos.name_for_position(i); });
        }
    } catch (std::exception& e) { out += std::string("!") + typeid(e).name() + ":"; out += lib([&] { return std::string(e.what()); }); }
    return out + log;
}


static void setup(Shared& s, const Plan& p, bool cold) {
    if (cold) return;
    lib([&] { s.d.reset(new po::options_description("Shared", 70, 30)); return 0; });
    lib([&] { add_options(*s.d, 0, 5); po::options_description g("Group"), h("Deeper"); add_options(h, 9, NOPT); add_options(g, 5, 9); add_more(g); g.add(h); s.d->add(g); s.pos.add("list", 2).add("beta", 1); return 0; });
    const Line* l = p.find("shared");
    std::vector<std::string> a; if (l) a = l->a;
    try { lib([&] { s.p.reset(new po::parsed_options(po::command_line_parser(a).options(*s.d).positional(s.pos).allow_unregistered().run())); return 0; }); } catch (std::exception&) {}
    s.v.reset(new po::variables_map);
    try { if (s.p) lib([&] { po::store(*s.p, *s.v); return 0; }); } catch (std::exception&) {}
    try { if (const Line* c = p.find("sharedcfg")) { std::istringstream is(c->arg(0)); lib([&] { po::store(po::parse_config_file(is, *s.d, true), *s.v); return 0; }); } } catch (std::exception&) {}
}
// the surroundings an operation meets: environment block, configuration file, local encoding
struct World {
    std::vector<std::string> env; std::vector<char*> envp; char** keep;
    World(const Plan& p) : keep(environ) {
        std::locale::global(std::locale(std::locale::classic(), new PtCvt));
        if (const Line* e = p.find("env")) for (auto& x : e->a) env.push_back(x.c_str());
        for (auto& x : env) envp.push_back(&x[0]);
        envp.push_back(0);
        environ = envp.data();
        more = 0; if (const Line* b = p.find("big")) more = (int)std::min(64L, std::max(0L, b->num(0)));
        int fd = memfd_create("cfg", 0);
        std::string t; if (const Line* c = p.find("sharedcfg")) t = c->arg(0);
        if (fd < 0 || write(fd, t.data(), t.size()) != (ssize_t)t.size()) harness_error("memfd");
        file_name = "/proc/self/fd/" + N(fd);
    }
    ~World() { environ = keep; std::locale::global(std::locale::classic()); }
};
static void gen_world(Rng& r, Plan& p) {
    std::vector<std::string> t = tokens(r); if (r.chance(1, 2)) t.insert(t.begin(), "--need=it"); p.add("shared", t);
    p.add("sharedcfg", {ini(r)});
    { std::vector<std::string> e; int n = r.range(0, 3); for (int i = 0; i < n; ++i) { const SOpt& o = OPTS[r.below(NOPT)]; std::string nm; for (const char* c = o.name; *c; ++c) nm += (char)toupper(*c); e.push_back((r.chance(1, 5) ? "OTHER_" : "SIMX_") + nm + "=" + val(r, o.kind)); } p.add("env", e); }
    if (r.chance(1, 4)) p.add("big", {N(r.range(1, 60))});
}
// operations run in a pristine process of their own: what each of them gives alone
static std::vector<std::string> run_alone(const Plan& p, bool cold, const std::vector<const Line*>& ops) {
    int fd[2]; if (pipe(fd)) harness_error("pipe");
    pid_t c = fork();
    if (c < 0) harness_error("fork");
    if (c == 0) {
        std::string all; Shared s; PointFn fn = point_fn; point_fn = 0; setup(s, p, cold); point_fn = fn;
        for (auto* l : ops) { std::string o = run_op(s, *l); all += N((long long)o.size()) + ":" + o; }
        size_t i = 0; while (i < all.size()) { ssize_t n = write(fd[1], all.data() + i, all.size() - i); if (n <= 0) _exit(3); i += (size_t)n; }
        _exit(0);
    }
    close(fd[1]);
    std::string all; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) all.append(b, (size_t)n);
    close(fd[0]);
    int st = 0; while (waitpid(c, &st, 0) < 0) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) violate("crash-alone", "the operations crash even when run alone, one after the other");
    std::vector<std::string> r; size_t i = 0;
    for (size_t k = 0; k < ops.size(); ++k) { size_t e = all.find(':', i); if (e == std::string::npos) violate("crash-alone", "the operations ended early when run alone"); size_t len = strtoul(all.c_str() + i, 0, 10); r.push_back(all.substr(e + 1, len)); i = e + 1 + len; }
    return r;
}
#endif
