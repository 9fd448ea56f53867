// Histories over option tables, parsed sources and variables maps, run against the
// real library and a reference model side by side (C04, C05, C06, C13, C15).
#ifndef SIM_WORLD_HPP
#define SIM_WORLD_HPP
#include "streams.hpp"
#include <boost/optional.hpp>
#include <boost/program_options.hpp>
#include <algorithm>
#include <memory>
#include <optional>
#include <sstream>
#include <unistd.h>
namespace po = boost::program_options;

namespace sim {
// ---- what user code throws
struct UserErr : std::runtime_error { int id; UserErr(int i) : std::runtime_error("user error " + N(i)), id(i) {} };
struct OddErr { int id; };
// ---- a user type with its own validator
struct Cust { std::string s; };
struct Validator { long calls, throw_at; int kind; bool threw; int id; };
extern Validator validator;
[[noreturn]] inline void throw_user(int kind, int id) { if (kind == 1) throw OddErr{id}; throw UserErr(id); }
inline void validate(boost::any& v, const std::vector<std::string>& xs, Cust*, int) {
    {
        Pause p;
        if (++validator.calls == validator.throw_at) {
            validator.threw = true; tally("fault.validator_throw");
            ev("validator throws at call " + N(validator.calls));
            if (validator.kind < 2) throw_user(validator.kind, ++validator.id);
            if (validator.kind == 3) throw std::bad_alloc();
        }
    }
    if (validator.threw && validator.kind == 2 && validator.calls == validator.throw_at) throw po::validation_error(po::validation_error::invalid_option_value);
    po::validators::check_first_occurrence(v);
    const std::string& s = po::validators::get_single_string(xs);
    if (s.compare(0, 3, "bad") == 0) throw po::invalid_option_value(s);
    Cust c; c.s = "<" + s + ">";
    v = c;
}

// ---- a value semantic of the user's own
struct UTok { std::string s; };

// ---- values as the model sees them
struct Val {
    bool some; bool vec; std::vector<std::string> el;
    Val() : some(false), vec(false) {}
    static Val one(const std::string& s) { Val v; v.some = true; v.el.push_back(s); return v; }
    bool operator==(const Val& o) const { return some == o.some && (!some || (vec == o.vec && el == o.el)); }
    bool operator!=(const Val& o) const { return !(*this == o); }
    std::string str() const {
        if (!some) return "(none)";
        std::string r = vec ? "[" : "";
        for (size_t i = 0; i < el.size(); ++i) { if (i) r += "|"; r += el[i]; }
        return r + (vec ? "]" : "");
    }
};
inline std::string elem(int v) { return "i" + N(v); }
inline std::string elem(bool v) { return v ? "b1" : "b0"; }
inline std::string elem(const std::string& v) { return "s" + v; }
inline std::string elem(const std::wstring& v) { return "w" + narrow(v); }
inline std::string elem(const Cust& v) { return "c" + v.s; }
inline std::string elem(const UTok& v) { return "u" + v.s; }
inline std::string elem(const boost::optional<int>& v) { return v ? "o" + N(*v) : "o-"; }
inline std::string elem(const std::optional<int>& v) { return v ? "p" + N(*v) : "p-"; }
template<class T> Val to_val(const T& v) { return Val::one(elem(v)); }
template<class T> Val to_val(const std::vector<T>& v) { Val r; r.some = true; r.vec = true; for (auto& x : v) r.el.push_back(elem(x)); return r; }
template<class T> bool try_any(const boost::any& a, Val& v) { if (const T* p = boost::any_cast<T>(&a)) { v = to_val(*p); return true; } return false; }
inline Val any_val(const boost::any& a) {
    Val v;
    if (a.empty()) return v;
    if (try_any<int>(a, v) || try_any<bool>(a, v) || try_any<std::string>(a, v) || try_any<std::wstring>(a, v) || try_any<Cust>(a, v) ||
        try_any<std::vector<int> >(a, v) || try_any<std::vector<std::string> >(a, v) || try_any<std::vector<Cust> >(a, v) || try_any<std::vector<std::wstring> >(a, v) ||
        try_any<boost::optional<int> >(a, v) || try_any<std::optional<int> >(a, v) || try_any<std::vector<UTok> >(a, v)) return v;
    v.some = true; v.el.push_back("?" + std::string(a.type().name()));
    return v;
}

enum Kind { K_INT, K_STR, K_BOOL, K_SWITCH, K_VINT, K_VSTR, K_FLAG, K_WSTR, K_OPT, K_SOPT, K_CUST, K_VCUST, K_UNT, K_VWSTR, K_USEM, K_N };
inline bool kind_vec(int k) { return k == K_VINT || k == K_VSTR || k == K_VCUST || k == K_VWSTR || k == K_USEM; }
inline bool kind_wide(int k) { return k == K_WSTR || k == K_VWSTR; }
inline bool kind_zero(int k) { return k == K_SWITCH || k == K_FLAG; } // takes no token on a command line
inline bool ascii(const std::string& s) { for (unsigned char c : s) if (c >= 128) return false; return true; }
inline bool conv_int(const std::string& t, long& v) {
    size_t i = 0; bool neg = false;
    if (i < t.size() && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
    if (i >= t.size()) return false;
    v = 0;
    for (; i < t.size(); ++i) { if (t[i] < '0' || t[i] > '9') return false; v = v * 10 + (t[i] - '0'); if (v > 3000000000L) return false; }
    if (neg) v = -v;
    return v >= -2147483648L && v <= 2147483647L;
}
// what one token means for an element of this kind; false: not convertible
inline bool conv(int k, const std::string& t, std::string& out) {
    long n;
    switch (k) {
    case K_INT: case K_VINT: if (!conv_int(t, n)) return false; out = "i" + N(n); return true;
    case K_OPT: if (!conv_int(t, n)) return false; out = "o" + N(n); return true;
    case K_SOPT: if (!conv_int(t, n)) return false; out = "p" + N(n); return true;
    case K_BOOL: case K_SWITCH: {
        std::string s; for (char c : t) s += c >= 'A' && c <= 'Z' ? (char)(c + 32) : c;
        if (s.empty() || s == "on" || s == "yes" || s == "1" || s == "true") { out = "b1"; return true; }
        if (s == "off" || s == "no" || s == "0" || s == "false") { out = "b0"; return true; }
        return false;
    }
    case K_CUST: case K_VCUST: if (t.compare(0, 3, "bad") == 0) return false; out = "c<" + t + ">"; return true;
    case K_WSTR: case K_VWSTR: out = "w" + t; return true;
    case K_USEM: out = "u" + t; return true;
    default: out = "s" + t; return true;
    }
}

// ---- option specification and the caller's own variables
struct Spec {
    std::string name, alias; char sh; int kind; int group;
    bool composing, required, multi, notifier, target;
    bool hasdef, hasimp, wild; std::string def, imp;
    bool wval; // converted from wide text
};
struct TargetBase { virtual ~TargetBase() {} virtual void reset(const Val* expect) = 0; virtual Val get() const = 0; virtual bool untouched() const = 0; };
template<class T> struct Sent { static T v() { return T(); } };
template<> struct Sent<int> { static int v() { return -777777; } };
template<> struct Sent<std::string> { static std::string v() { return "\x01untouched"; } };
template<> struct Sent<std::wstring> { static std::wstring v() { return L"\x01untouched"; } };
template<> struct Sent<Cust> { static Cust v() { Cust c; c.s = "\x01untouched"; return c; } };
template<class T> struct Sent<std::vector<T> > { static std::vector<T> v() { return std::vector<T>(3, Sent<T>::v()); } };
template<> struct Sent<boost::optional<int> > { static boost::optional<int> v() { return boost::optional<int>(-777777); } };
template<> struct Sent<std::optional<int> > { static std::optional<int> v() { return std::optional<int>(-777777); } };
template<class T> struct Target : TargetBase {
    T var;
    Val base;
    Target() : var(Sent<T>::v()) { base = to_val(var); }
    void reset(const Val*) { var = Sent<T>::v(); base = to_val(var); }
    Val get() const { return to_val(var); }
    bool untouched() const { return to_val(var) == base; }
};
template<> inline void Target<bool>::reset(const Val* e) { var = !(e && e->some && !e->el.empty() && e->el[0] == "b1"); base = to_val(var); }

struct UserSem : po::value_semantic {
    bool comp, req, hasdef; unsigned most; std::vector<UTok> def; std::function<void(const boost::any&)> note;
    std::string name() const { return "mine"; }
    unsigned min_tokens() const { return 1; }
    unsigned max_tokens() const { return most; }
    bool is_composing() const { return comp; }
    bool is_required() const { return req; }
    void parse(boost::any& st, const std::vector<std::string>& toks, bool) const {
        if (st.empty()) st = boost::any(std::vector<UTok>());
        std::vector<UTok>* v = boost::any_cast<std::vector<UTok> >(&st);
        for (auto& t : toks) { UTok u; u.s = t; v->push_back(u); }
    }
    bool apply_default(boost::any& st) const { if (!hasdef) return false; st = def; return true; }
    void notify(const boost::any& st) const { if (note) note(st); }
};
struct UserMap : po::abstract_variables_map { // a map of the user's own, at the end of a chain
    std::map<std::string, po::variable_value> m; po::variable_value none;
    const po::variable_value& get(const std::string& n) const { auto i = m.find(n); return i == m.end() ? none : i->second; }
};

struct World {
    struct Key { int gen, idx; bool operator<(const Key& o) const { return gen != o.gen ? gen < o.gen : idx < o.idx; } bool operator==(const Key& o) const { return gen == o.gen && idx == o.idx; } };
    struct Entry { Val v; bool defaulted; bool sem, must; std::set<Key> keys; Entry() : defaulted(false), sem(false), must(false) {}
        void own(int gen, int idx) { Key k = { gen, idx }; keys.clear(); keys.insert(k); sem = must = true; } };
    struct MapM { // model of one variables map
        std::map<std::string, Entry> e;
        std::set<std::string> fin, unsure;       // settled; perhaps settled
        std::set<std::string> req, reqmaybe;
        int next; bool failed;
        MapM() : next(-1), failed(false) {}
    };
    struct Occ { std::string name; std::vector<std::string> toks; bool unreg; Occ() : unreg(false) {} };
    struct Parsed { bool live, wide; int desc, gen; std::vector<Occ> occ; std::unique_ptr<po::parsed_options> n; std::unique_ptr<po::wparsed_options> w; Parsed() : live(false), wide(false) {} };
    static const int NMAP = 4, NDESC = 4, NSLOT = 6;

    std::vector<Spec> spec;
    bool shortonly;                          // some option has no long name
    std::vector<std::pair<std::string, int> > posnames;
    int gen;
    std::unique_ptr<po::options_description> group[3], desc[NDESC];
    std::unique_ptr<po::positional_options_description> posd;
    std::map<Key, std::unique_ptr<TargetBase> > target;
    std::map<Key, int> opt_live;
    std::unique_ptr<po::variables_map> real[NMAP];
    MapM model[NMAP];
    UserMap umap; std::map<std::string, Entry> umodel;
    Parsed slot[NSLOT];
    std::vector<std::pair<Key, Val> > log;   // notifications of the current call
    long notify_throw; int notify_kind, notify_id; bool notify_threw;
    int nstore, nnotify, nfail, ndrop, nlink;
    int nest;                                // how deep the groups are
    std::string help[NDESC];                 // what the tables print when new

    World() : nest(0), shortonly(false), gen(0), notify_throw(0), notify_kind(0), notify_id(0), notify_threw(false), nstore(0), nnotify(0), nfail(0), ndrop(0), nlink(0) {
        for (int i = 0; i < NMAP; ++i) real[i].reset(new po::variables_map());
    }

    // ------------------------------------------------------------ table
    static bool good_name(const std::string& n) {
        if (n.empty() || n[0] == '-' || n[0] == '.' || n[n.size() - 1] == '.') return false;
        if (n.find('*') != std::string::npos && n.find('*') + 1 != n.size()) return false;
        for (char c : n) if (!((c >= 'a' && c <= 'z') || c == '*' || c == '.' || c == '-' || c == '_' || (c >= '0' && c <= '9'))) return false;
        return true;
    }
    void read_table(const Plan& p) {
        for (auto& l : p.lines) {
            if (l.op == "opt") {
                Spec s; s.name = l.arg(0); s.sh = l.arg(1).empty() ? 0 : l.arg(1)[0];
                if (s.sh && !(s.sh >= 'a' && s.sh <= 'z')) s.sh = 0;
                bool dup = false;
                if (s.name.empty() ? !s.sh : !good_name(s.name)) continue;
                for (auto& o : spec) {
                    if (s.sh && o.sh == s.sh) s.sh = 0;
                    if (o.name == s.name || o.alias == s.name) dup = true;
                }
                s.wild = !s.name.empty() && s.name[s.name.size() - 1] == '*';
                if (s.wild) { if (s.name.size() < 3) continue; s.sh = 0; for (auto& o : spec) if (o.wild || covers(s, o.name) || covers(s, o.alias)) dup = true; }
                for (auto& o : spec) if (covers(o, s.name)) dup = true;
                s.alias = l.arg(7);
                if (!good_name(s.alias) || s.alias.size() < 2 || s.name.empty() || s.wild || s.alias.find('*') != std::string::npos || s.alias == s.name) s.alias = "";
                for (auto& o : spec) if (o.name == s.alias || o.alias == s.alias || covers(o, s.alias)) s.alias = "";
                if (dup || (s.name.empty() && !s.sh)) continue;
                if (s.name.empty()) { s.name = std::string("-") + s.sh; shortonly = true; }
                s.kind = (int)((unsigned long)l.num(2) % K_N);
                std::string f = l.arg(3);
                auto has = [&](char c) { return f.find(c) != std::string::npos; };
                bool typed = s.kind != K_FLAG && s.kind != K_UNT;
                s.wval = kind_wide(s.kind) || (has('w') && (s.kind == K_INT || s.kind == K_STR || s.kind == K_BOOL || s.kind == K_VINT || s.kind == K_VSTR));
                s.composing = has('c') && kind_vec(s.kind);
                s.multi = has('m') && kind_vec(s.kind);
                s.required = has('r') && typed && s.kind != K_SWITCH;
                s.notifier = has('n') && typed; s.target = has('t') && typed;
                s.hasdef = s.kind == K_SWITCH || (has('d') && typed); s.def = l.arg(4);
                s.hasimp = has('i') && typed && s.kind != K_SWITCH && s.kind != K_USEM && !s.multi; s.imp = l.arg(5);
                if (s.kind == K_USEM) s.target = false;
                if (s.wild) s.required = s.target = s.hasdef = false;
                s.group = (int)((unsigned long)l.num(6) % 3);
                spec.push_back(s);
            } else if (l.op == "nest") { nest = (int)((unsigned long)l.num(0) % 3);
            } else if (l.op == "pos") {
                int i = find_spec(l.arg(0));
                if (i >= 0 && !spec[i].wild && !kind_zero(spec[i].kind) && (posnames.empty() || posnames.back().second >= 0)) posnames.push_back(std::make_pair(l.arg(0), (int)l.num(1, 1)));
            }
        }
    }
    static bool covers(const Spec& w, const std::string& n) { return w.wild && n.compare(0, w.name.size() - 1, w.name, 0, w.name.size() - 1) == 0; }
    int find_spec(const std::string& n) const {
        for (size_t i = 0; i < spec.size(); ++i) if (spec[i].name == n && !spec[i].wild) return (int)i;
        for (size_t i = 0; i < spec.size(); ++i) if (covers(spec[i], n) && n.find('*') == std::string::npos) return (int)i;
        return -1;
    }
    static std::string names_of(const Spec& s) {
        std::string n = s.name;
        if (n[0] == '-') return std::string(",") + s.sh;
        if (!s.alias.empty()) n += "," + s.alias;
        if (s.sh) n += std::string(",") + s.sh;
        return n;
    }
    static bool in_desc(int g, int d) { return d == 0 || d == 3 || (d == 1 && g < 2) || (d == 2 && g > 0); }

    template<class T> static T from_text(const std::string& t) { return make((T*)0, t); }
    static int make(int*, const std::string& t) { long v; return conv_int(t, v) ? (int)v : 0; }
    static bool make(bool*, const std::string& t) { return t == "1"; }
    static std::string make(std::string*, const std::string& t) { return t; }
    static std::wstring make(std::wstring*, const std::string& t) { return widen(t); }
    static UTok make(UTok*, const std::string& t) { UTok u; u.s = t; return u; }
    static Cust make(Cust*, const std::string& t) { Cust c; c.s = "dflt" + t; return c; }
    static boost::optional<int> make(boost::optional<int>*, const std::string& t) { long v; return conv_int(t, v) ? boost::optional<int>((int)v) : boost::optional<int>(); }
    static std::optional<int> make(std::optional<int>*, const std::string& t) { long v; return conv_int(t, v) ? std::optional<int>((int)v) : std::optional<int>(); }
    template<class T> static std::vector<T> make(std::vector<T>*, const std::string& t) {
        std::vector<T> r; size_t i = 0;
        if (!t.empty()) for (;;) { size_t e = t.find(',', i); r.push_back(make((T*)0, t.substr(i, e == std::string::npos ? e : e - i))); if (e == std::string::npos) break; i = e + 1; }
        return r;
    }
    template<class T, class C> void add_typed(po::options_description& d, int idx, po::typed_value<T, C>* (*mk)(T*)) {
        const Spec& s = spec[idx];
        Key k = { gen, idx };
        T* tp = 0;
        if (s.target) { Target<T>* t = new Target<T>(); target[k].reset(t); tp = &t->var; }
        po::typed_value<T, C>* v = mk(tp);
        if (s.hasdef && s.kind != K_SWITCH) v->default_value(from_text<T>(s.def), "text");
        if (s.hasimp) v->implicit_value(from_text<T>(s.imp), "imp");
        if (s.composing) v->composing();
        if (s.multi) v->multitoken();
        if (s.required) v->required();
        if (s.notifier) v->notifier([this, k](const T& x) { notified(k, to_val(x)); });
        std::string n = names_of(s);
        d.add_options()(n.c_str(), v, "desc");
    }
    template<class T> static po::typed_value<T>* mkv(T* t) { return po::value<T>(t); }
    template<class T> static po::typed_value<T, wchar_t>* mkw(T* t) { return po::wvalue<T>(t); }
    static po::typed_value<bool>* mksw(bool* t) { return po::bool_switch(t); }
    void add_opt(po::options_description& d, int i) {
        const Spec& s = spec[i];
        std::string n = names_of(s);
        switch (s.kind) {
        case K_INT: if (s.wval) add_typed<int, wchar_t>(d, i, mkw<int>); else add_typed<int, char>(d, i, mkv<int>); break;
        case K_STR: if (s.wval) add_typed<std::string, wchar_t>(d, i, mkw<std::string>); else add_typed<std::string, char>(d, i, mkv<std::string>); break;
        case K_BOOL: if (s.wval) add_typed<bool, wchar_t>(d, i, mkw<bool>); else add_typed<bool, char>(d, i, mkv<bool>); break;
        case K_SWITCH: add_typed<bool, char>(d, i, mksw); break;
        case K_VINT: if (s.wval) add_typed<std::vector<int>, wchar_t>(d, i, mkw<std::vector<int> >); else add_typed<std::vector<int>, char>(d, i, mkv<std::vector<int> >); break;
        case K_VSTR: if (s.wval) add_typed<std::vector<std::string>, wchar_t>(d, i, mkw<std::vector<std::string> >); else add_typed<std::vector<std::string>, char>(d, i, mkv<std::vector<std::string> >); break;
        case K_VWSTR: add_typed<std::vector<std::wstring>, wchar_t>(d, i, mkw<std::vector<std::wstring> >); break;
        case K_FLAG: d.add_options()(n.c_str(), "flag"); break;
        case K_UNT: d.add_options()(n.c_str(), new po::untyped_value(), "untyped"); break;
        case K_WSTR: add_typed<std::wstring, wchar_t>(d, i, mkw<std::wstring>); break;
        case K_OPT: add_typed<boost::optional<int>, char>(d, i, mkv<boost::optional<int> >); break;
        case K_SOPT: add_typed<std::optional<int>, char>(d, i, mkv<std::optional<int> >); break;
        case K_CUST: add_typed<Cust, char>(d, i, mkv<Cust>); break;
        case K_VCUST: add_typed<std::vector<Cust>, char>(d, i, mkv<std::vector<Cust> >); break;
        case K_USEM: {
            UserSem* u = new UserSem; u->comp = s.composing; u->req = s.required; u->hasdef = s.hasdef; u->most = s.multi ? 1000 : 1; u->def = make((std::vector<UTok>*)0, s.def);
            Key k = { gen, i };
            if (s.notifier) u->note = [this, k](const boost::any& a) { notified(k, any_val(a)); };
            d.add_options()(n.c_str(), u, "desc");
        }
        }
    }
    Val text_val(const Spec& s, const std::string& t) const {
        switch (s.kind) {
        case K_INT: return to_val(from_text<int>(t));
        case K_BOOL: return to_val(from_text<bool>(t));
        case K_SWITCH: return to_val(false);
        case K_VINT: return to_val(from_text<std::vector<int> >(t));
        case K_VSTR: return to_val(from_text<std::vector<std::string> >(t));
        case K_VWSTR: return to_val(from_text<std::vector<std::wstring> >(t));
        case K_WSTR: return to_val(from_text<std::wstring>(t));
        case K_OPT: return to_val(from_text<boost::optional<int> >(t));
        case K_SOPT: return to_val(from_text<std::optional<int> >(t));
        case K_CUST: return to_val(from_text<Cust>(t));
        case K_VCUST: return to_val(from_text<std::vector<Cust> >(t));
        case K_USEM: return to_val(from_text<std::vector<UTok> >(t));
        default: return to_val(t);
        }
    }
    void build() {
        ++gen;
        for (auto& g : group) g.reset(new po::options_description("Group"));
        for (size_t i = 0; i < spec.size(); ++i) lib([&] { add_opt(*group[spec[i].group], (int)i); return 0; });
        for (int d = 0; d < 3; ++d) {
            desc[d].reset(new po::options_description("Table"));
            po::options_description mid("Inner"), *to = nest ? &mid : desc[d].get(); // gone after this turn
            for (int g = 0; g < 3; ++g) if (in_desc(g, d)) lib([&] { to->add(*group[g]); return 0; });
            if (nest == 1) lib([&] { desc[d]->add(mid); return 0; });
            if (nest == 2) { po::options_description outer("Outer"); lib([&] { outer.add(mid); return 0; }); lib([&] { desc[d]->add(outer); return 0; }); }
        }
        desc[3].reset(new po::options_description(*desc[0]));
        posd.reset(new po::positional_options_description());
        for (auto& x : posnames) posd->add(x.first.c_str(), x.second < 0 ? -1 : x.second ? x.second : 1);
        for (int d = 0; d < NDESC; ++d) { std::ostringstream os; os << *desc[d]; help[d] = os.str(); }
        ev("build " + N(gen));
    }

    // ------------------------------------------------------------ parsing
    struct RawOcc { std::string name; long form; std::vector<std::string> toks; };
    static bool clean_value(const std::string& t) { // survives a configuration line unchanged
        if (t.find_first_of("#\n\r") != std::string::npos) return false;
        if (t.empty()) return true;
        return !strchr(" \t\v\f\b", t[0]) && !strchr(" \t\v\f\b", t[t.size() - 1]) && t.find('\0') == std::string::npos;
    }
    static bool no_nul(const std::string& t) { return t.find('\0') == std::string::npos; }
    // result: 0 parsed, 1 parse error expected and seen
    void do_parse(const Line& l, const std::vector<RawOcc>& raw) {
        int si = (int)((unsigned long)l.num(0) % NSLOT);
        char src = l.arg(1).empty() ? 'm' : l.arg(1)[0];
        int di = (int)((unsigned long)l.num(2) % NDESC);
        bool wide = l.num(3) != 0, allow = l.num(4) != 0, usepos = l.num(5) != 0;
        int sty = (int)((unsigned long)l.num(6) % 6);
        const bool slash = sty == 3 || sty == 5, disguise = sty == 2 || sty == 5;
        namespace cls = po::command_line_style;
        static const int styles[] = {0, cls::unix_style | cls::case_insensitive, (cls::unix_style & ~cls::allow_guessing) | cls::allow_long_disguise, cls::unix_style | cls::allow_slash_for_short,
            cls::allow_short | cls::allow_dash_for_short | cls::short_allow_adjacent | cls::short_allow_next | cls::allow_sticky, (cls::unix_style & ~cls::allow_guessing) | cls::allow_long_disguise | cls::allow_slash_for_short};
        if (!desc[di]) { ev("parse skipped, no table"); return; }
        Parsed& s = slot[si];
        s.n.reset(); s.w.reset(); s.live = false;
        s.desc = di; s.gen = gen; s.wide = wide; s.occ.clear();
        const po::options_description& D = *desc[di];
        bool expect_err = false;
        std::vector<std::string> args, head, tail;
        std::string text, section;
        std::vector<std::string> env;
        po::parsed_options man(&D);
        auto ok_tok = [&](const Spec* sp, const std::string& t) {
            return no_nul(t) && (ascii(t) || !(wide || (sp && sp->wval)));
        };
        long before = validator.calls;
        bool poswide = false; for (auto& x : posnames) if (spec[find_spec(x.first)].wval) poswide = true;
        if (src == 'c') {
            std::vector<Occ> hd, md, tl; std::vector<RawOcc> miss;
            int bundle = -1; // the token which ends in options without value, and can take more
            auto flip = [&](std::string n, long f) { for (size_t i = 0; i < n.size(); ++i) if (n[i] >= 'a' && n[i] <= 'z' && (f + i * 7) % 3 == 0) n[i] -= 32; return n; };
            for (auto& r : raw) {
                if (r.name.empty()) { // positional
                    for (auto& t : r.toks) {
                        if (!ok_tok(0, t) || (usepos && poswide && !ascii(t))) continue;
                        Occ o; o.toks.push_back(t);
                        if (r.form % 2) { tail.push_back(t); tl.push_back(o); }
                        else if (t.empty() || (t[0] != '-' && !(slash && t[0] == '/'))) { head.push_back(t); hd.push_back(o); }
                    }
                    continue;
                }
                int k = find_spec(r.name);
                if (k < 0 || !in_desc(spec[k].group, di)) {
                    if (!allow || !good_name(r.name) || prefix_of_any(r.name) || sty == 4) continue;
                    std::string t = r.toks.empty() ? "" : r.toks[0];
                    if (!ok_tok(0, t)) continue;
                    tally("unregistered options");
                    args.push_back("--" + r.name + (t.empty() ? "" : "=" + t));
                    Occ o; o.name = r.name; o.unreg = true; if (!t.empty()) o.toks.push_back(t);
                    md.push_back(o);
                    continue;
                }
                const Spec& sp = spec[k];
                std::string lng = sp.name[0] == '-' ? "" : "--" + (sp.wild ? r.name : sp.name), sht = sp.sh ? std::string("-") + sp.sh : "";
                if (sty == 4) { lng = ""; if (sht.empty()) continue; }
                bool uselong = !lng.empty() && (sht.empty() || r.form % 4 < 2);
                if (uselong && !sp.alias.empty() && r.form % 3 == 1) { lng = "--" + sp.alias; tally("alias names"); }
                else if (uselong && r.form >= 12 && !sp.wild && !disguise) { // a name as short as it can be
                    size_t n = sp.name.size();
                    while (n > 1 && only_prefix(sp.name.substr(0, n - 1), k, di)) --n;
                    if (n < sp.name.size()) tally("abbreviated names");
                    lng = "--" + sp.name.substr(0, n);
                }
                if (sty == 1 && !sp.wild) { lng = flip(lng, r.form); if (!kind_zero(sp.kind)) sht = flip(sht, r.form); } // in a group "-Ab" only the last one may differ in case
                if (disguise && uselong && r.form % 2 == 0) { lng.erase(0, 1); if (slash && r.form % 4 == 0) { lng[0] = '/'; tally("long names after a slash"); } }
                if (slash && !uselong && r.form % 4 == 3) sht[0] = '/';
                std::string nm = uselong ? lng : sht;
                Occ o; o.name = sp.wild ? r.name : sp.name;
                bool join = !uselong && bundle == (int)args.size() - 1 && bundle >= 0 && sht[0] == '-' && (sty == 0 || sty == 1 || sty == 4) && r.form % 3 != 1;
                if (join && (kind_zero(sp.kind) || (!r.toks.empty() && !sp.hasimp))) { nm = args.back() + sht.substr(1); } else join = false;
                auto push = [&](const std::string& t) { if (join) { args.back() = t; join = false; tally("grouped short options"); } else args.push_back(t); };
                if (kind_zero(sp.kind)) { push(nm); if (!uselong && sht[0] == '-') bundle = (int)args.size() - 1; md.push_back(o); continue; }
                if (r.toks.empty()) {
                    if (sp.hasimp) { args.push_back(nm); md.push_back(o); }
                    else if (r.form == 7) miss.push_back(r);
                    continue;
                }
                bool adj = sp.hasimp || r.form % 2 == 0;
                std::vector<std::string> toks = r.toks;
                if (!sp.multi) toks.resize(1);
                bool bad = false;
                for (size_t i = 0; i < toks.size(); ++i) {
                    if (!ok_tok(&sp, toks[i])) bad = true;
                    if (adj && i == 0) { if (toks[i].empty()) bad = true; }
                    else if (!toks[i].empty() && (toks[i][0] == '-' || (slash && toks[i][0] == '/'))) bad = true;
                }
                if (bad) continue;
                bundle = -1;
                if (adj) push(nm + (uselong ? "=" : "") + toks[0]); else { push(nm); args.push_back(toks[0]); }
                for (size_t i = 1; i < toks.size(); ++i) args.push_back(toks[i]);
                o.toks = toks;
                md.push_back(o);
            }
            if (sty == 4 && !miss.empty() && !spec[find_spec(miss[0].name)].sh) miss.clear();
            if (!miss.empty()) { // an omitted value can only come last
                const Spec& sp = spec[find_spec(miss[0].name)];
                tail.clear(); tl.clear();
                args.push_back(sp.name[0] == '-' ? sp.name : sty == 4 ? std::string("-") + sp.sh : "--" + (sp.wild ? miss[0].name : sp.name));
                expect_err = true;
            }
            args.insert(args.begin(), head.begin(), head.end());
            if (!tail.empty()) { args.push_back("--"); args.insert(args.end(), tail.begin(), tail.end()); }
            std::vector<Occ> all(hd); all.insert(all.end(), md.begin(), md.end()); all.insert(all.end(), tl.begin(), tl.end());
            if (usepos && !posnames.empty()) {
                size_t k = 0; long used = 0;
                for (auto& o : all) if (o.name.empty()) {
                    while (k < posnames.size() && posnames[k].second >= 0 && used >= std::max(1, posnames[k].second)) { ++k; used = 0; }
                    if (k >= posnames.size()) { expect_err = true; break; }
                    int q = find_spec(posnames[k].first);
                    o.name = posnames[k].first; ++used;
                    (void)q;
                }
            }
            s.occ = all;
        } else if (src == 'f') {
            if (shortonly) { ev("parse skipped, short-only option"); return; }
            for (auto& r : raw) {
                if (!good_name(r.name)) continue;
                int k = find_spec(r.name);
                bool known = k >= 0 && in_desc(spec[k].group, di);
                if (!known && !(allow && good_name(r.name))) continue;
                std::vector<std::string> toks = r.toks;
                if (toks.empty()) toks.push_back("");
                for (auto& t : toks) {
                    if (!clean_value(t) || !ok_tok(known ? &spec[k] : 0, t)) continue;
                    size_t dot = r.name.rfind('.');
                    if (r.form % 2 && dot != std::string::npos && dot > 0) {
                        text += "[" + r.name.substr(0, dot) + "]\n" + r.name.substr(dot + 1) + "=" + t + "\n";
                        section = "x";
                    } else if (section.empty()) text += r.name + (r.form % 4 == 2 ? " = " : "=") + t + "\n";
                    else continue;
                    Occ o; o.name = r.name; o.toks.push_back(t); o.unreg = !known;
                    s.occ.push_back(o);
                }
            }
        } else if (src == 'e') {
            s.wide = wide = false;
            for (auto& r : raw) {
                if (!good_name(r.name)) continue;
                std::vector<std::string> toks = r.toks;
                if (toks.empty()) toks.push_back("");
                for (auto& t : toks) {
                    int k = find_spec(r.name);
                    if (!no_nul(t) || (k >= 0 && !ok_tok(&spec[k], t))) continue;
                    std::string n; for (char c : r.name) n += c >= 'a' && c <= 'z' ? (char)(c - 32) : c;
                    env.push_back("PFX_" + n + "=" + t);
                    if (r.form % 2) env.push_back("OTHER_" + n + "=zzz");
                    Occ o; o.name = r.name; o.toks.push_back(t);
                    s.occ.push_back(o);
                }
            }
        } else { // made by hand
            src = 'm';
            for (auto& r : raw) {
                int k = find_spec(r.name);
                bool bad = false;
                for (auto& t : r.toks) if (!ok_tok(k >= 0 ? &spec[k] : 0, t)) bad = true;
                if (bad) continue;
                po::option o(r.name, r.toks);
                if (r.form % 3 == 0) o.original_tokens.push_back("--" + r.name);
                if (r.form % 7 == 6) o.unregistered = true;
                man.options.push_back(o);
                Occ m; m.name = r.name; m.toks = r.toks; m.unreg = o.unregistered;
                s.occ.push_back(m);
            }
        }
        std::string what; bool threw = false;
        std::vector<char*> envp; char** old = environ;
        try {
            if (src == 'c' && !wide) {
                std::vector<const char*> av; av.push_back("prog"); for (auto& a : args) av.push_back(a.c_str()); av.push_back(0);
                if (usepos && !posnames.empty()) s.n.reset(new po::parsed_options(lib([&] { po::command_line_parser p((int)args.size() + 1, av.data()); p.options(D).positional(*posd); if (sty) p.style(styles[sty]); if (allow) p.allow_unregistered(); return p.run(); })));
                else if (allow) s.n.reset(new po::parsed_options(lib([&] { return po::command_line_parser(args).options(D).style(styles[sty]).allow_unregistered().run(); })));
                else if (sty) s.n.reset(new po::parsed_options(lib([&] { return po::parse_command_line((int)args.size() + 1, av.data(), D, styles[sty]); })));
                else s.n.reset(new po::parsed_options(lib([&] { return po::parse_command_line((int)args.size() + 1, av.data(), D); })));
            } else if (src == 'c') {
                std::vector<std::wstring> wa; for (auto& a : args) wa.push_back(widen(a));
                s.w.reset(new po::wparsed_options(lib([&] { po::wcommand_line_parser p(wa); p.options(D); if (sty) p.style(styles[sty]); if (usepos && !posnames.empty()) p.positional(*posd); if (allow) p.allow_unregistered(); return p.run(); })));
            } else if (src == 'f' && !wide) {
                std::istringstream is(text);
                s.n.reset(new po::parsed_options(lib([&] { return po::parse_config_file(is, D, allow); })));
            } else if (src == 'f') {
                std::wistringstream is(widen(text));
                s.w.reset(new po::wparsed_options(lib([&] { return po::parse_config_file(is, D, allow); })));
            } else if (src == 'e') {
                std::vector<std::string> keep(env);
                for (auto& x : env) envp.push_back(&x[0]);
                envp.push_back(0);
                environ = envp.data();
                s.n.reset(new po::parsed_options(lib([&] { return po::parse_environment(D, "PFX_"); })));
                environ = old;
            } else if (wide) s.w.reset(new po::wparsed_options(man));
            else s.n.reset(new po::parsed_options(man));
        }
        catch (po::error& e) { threw = true; what = e.what(); }
        environ = old;
        for (auto& a : args) std::fill(a.begin(), a.end(), '#'); // the input is gone
        if (validator.calls != before) violate("parse-side-effect", "a validator ran while parsing");
        if (threw != expect_err) violate(threw ? "parse-rejected" : "parse-error-missed", "source '" + std::string(1, src) + "': " + what);
        if (threw) { ev("parse error as expected"); tally("parse errors"); s.n.reset(); s.w.reset(); return; }
        s.live = true;
        ev("parse " + N(si) + " " + std::string(1, src) + (wide ? "w " : " ") + N((long long)s.occ.size()));
        std::vector<Occ> got = options_of(s);
        bool same = got.size() == s.occ.size();
        for (size_t i = 0; same && i < got.size(); ++i) same = got[i].name == s.occ[i].name && got[i].toks == s.occ[i].toks && got[i].unreg == s.occ[i].unreg;
        if (!same) violate("parse-differs", "source '" + std::string(1, src) + "' gave " + show(got) + " expected " + show(s.occ));
    }
    bool only_prefix(const std::string& n, int k, int di) const {
        for (size_t i = 0; i < spec.size(); ++i) if ((int)i != k && in_desc(spec[i].group, di) && (spec[i].name.compare(0, n.size(), n) == 0 || spec[i].alias.compare(0, n.size(), n) == 0)) return false;
        return n[n.size() - 1] != '-' && n[0] != '-';
    }
    bool prefix_of_any(const std::string& n) const { for (auto& s : spec) if (s.name.compare(0, n.size(), n) == 0 || s.alias.compare(0, n.size(), n) == 0) return true; return n.size() < 2; }
    static std::vector<Occ> options_of(const Parsed& s) {
        std::vector<Occ> r;
        if (s.n) for (auto& o : s.n->options) { Occ x; x.name = o.string_key; x.unreg = o.unregistered; x.toks = o.value; r.push_back(x); }
        if (s.w) for (auto& o : s.w->options) { Occ x; x.name = o.string_key; x.unreg = o.unregistered; for (auto& v : o.value) x.toks.push_back(narrow(v)); r.push_back(x); }
        return r;
    }
    static std::string show(const std::vector<Occ>& v) { std::string r; for (auto& o : v) { r += o.name + (o.unreg ? "?" : "") + "("; for (auto& t : o.toks) r += t + ","; r += ") "; } return r.substr(0, 700); }

    // ------------------------------------------------------------ comparing
    static Entry entry_of(const po::variables_map& m, const std::string& n) {
        Entry e;
        auto i = m.find(n);
        if (i != m.end()) { e.v = any_val(i->second.value()); e.defaulted = i->second.defaulted(); }
        return e;
    }
    void compare(int m, const char* when) {
        const po::variables_map& r = *real[m];
        for (auto& kv : r) {
            Entry e = entry_of(r, kv.first);
            auto i = model[m].e.find(kv.first);
            Entry w; if (i != model[m].e.end()) w = i->second;
            if (!e.v.some && !w.v.some) { if (!model[m].failed) violate("phantom-entry", std::string(when) + ": '" + kv.first + "' has an entry without value"); continue; }
            if (e.v != w.v) violate("value-differs", std::string(when) + ": map " + N(m) + " '" + kv.first + "' is " + e.v.str() + " expected " + w.v.str());
            if (e.v.some && e.defaulted != w.defaulted) violate("defaulted-flag", std::string(when) + ": map " + N(m) + " '" + kv.first + "' defaulted " + N(e.defaulted) + " expected " + N(w.defaulted));
        }
        for (auto& kv : model[m].e) if (kv.second.v.some && r.find(kv.first) == r.end()) violate("value-missing", std::string(when) + ": map " + N(m) + " '" + kv.first + "' absent, expected " + kv.second.v.str());
    }
    bool cyclic(int from, int to) const { for (int i = to, n = 0; i >= 0 && i < NMAP && n < 10; i = model[i].next, ++n) if (i == from) return true; return false; }
    Entry chain(int m, const std::string& n) const {
        Entry d;
        for (int i = m; i >= 0; i = model[i].next) {
            if (i == NMAP) { auto u = umodel.find(n); if (u != umodel.end() && u->second.v.some && (!d.v.some || !u->second.defaulted)) return u->second; break; }
            auto k = model[i].e.find(n);
            if (k == model[i].e.end() || !k->second.v.some) continue;
            if (!k->second.defaulted) return k->second;
            if (!d.v.some) d = k->second;
        }
        return d;
    }
    void lookup(int m, const std::string& n) {
        size_t before[NMAP]; for (int i = 0; i < NMAP; ++i) before[i] = real[i]->size();
        const po::variable_value& v = lib([&]() -> const po::variable_value& { return (*real[m])[n]; });
        Val got = any_val(v.value());
        Entry w = chain(m, n);
        if (got != w.v) violate("lookup", "map " + N(m) + "['" + n + "'] is " + got.str() + " expected " + w.v.str());
        if (got.some && v.defaulted() != w.defaulted) violate("lookup", "map " + N(m) + "['" + n + "'] defaulted " + N(v.defaulted()));
        if (v.empty() == got.some) violate("lookup", "empty() of '" + n + "'");
        if (got.some) {
            bool ok = true;
            try { if (boost::any_cast<int>(&v.value())) ok = elem(v.as<int>()) == got.el[0]; else (void)v.as<int>(), ok = false; } catch (boost::bad_any_cast&) { ok = boost::any_cast<int>(&v.value()) == 0; }
            try { if (boost::any_cast<std::string>(&v.value())) ok = ok && elem(v.as<std::string>()) == got.el[0]; } catch (boost::bad_any_cast&) { ok = false; }
            if (!ok) violate("lookup", "as() of '" + n + "'");
        }
        for (int i = 0; i < NMAP; ++i) if (real[i]->size() != before[i]) violate("lookup-changes-map", "looking up '" + n + "' changed map " + N(i));
        size_t c = real[m]->count(n);
        auto k = model[m].e.find(n);
        bool here = k != model[m].e.end() && k->second.v.some;
        if (here != (c == 1) && !model[m].failed) violate("count", "count of '" + n + "' is " + N((long long)c));
    }

    // ------------------------------------------------------------ storing
    struct Pred { int err; std::string over, key; std::map<std::string, std::vector<Val> > allowed; std::map<std::string, Entry> e; std::set<std::string> mentioned, newfin; };
    // err: 0 success, 1 unknown option, 2 conversion/superfluous/missing, 3 repeated
    Pred predict(const MapM& m, const Parsed& s, const std::vector<bool>& drop) {
        Pred p; p.err = 0; p.e = m.e;
        for (size_t i = 0; i < s.occ.size(); ++i) {
            const Occ& o = s.occ[i];
            if (drop[i] || o.name.empty() || o.unreg) continue;
            if (m.fin.count(o.name)) continue;
            int k = find_spec(o.name);
            p.key = o.name;
            if (k < 0 || !in_desc(spec[k].group, s.desc)) { p.err = 1; return p; }
            const Spec& sp = spec[k];
            if (!p.mentioned.count(o.name)) { p.mentioned.insert(o.name); p.allowed[o.name].push_back(p.e[o.name].v); }
            Entry& e = p.e[o.name];
            if (e.defaulted) e = Entry();
            std::vector<Val>& al = p.allowed[o.name];
            if (sp.hasimp && o.toks.empty()) {
                // the implicit value replaces what the option held (recorded for C04 as a known finding)
                if (e.v.some) p.over = o.name;
                e.v = text_val(sp, sp.imp);
            }
            else if (kind_vec(sp.kind)) {
                if (!e.v.some) { e.v.some = true; e.v.vec = true; }
                al.push_back(e.v);
                for (auto& t : o.toks) { std::string x; if (!conv(sp.kind, t, x)) { p.err = 2; return p; } e.v.el.push_back(x); al.push_back(e.v); }
            } else {
                if (e.v.some) { p.err = 3; return p; }
                bool boolish = sp.kind == K_BOOL || sp.kind == K_SWITCH || sp.kind == K_FLAG || sp.kind == K_UNT;
                if (o.toks.size() > 1 || (o.toks.empty() && !boolish)) { p.err = 2; return p; }
                std::string x;
                if (!conv(sp.kind, o.toks.empty() ? "" : o.toks[0], x)) { p.err = 2; return p; }
                e.v = Val::one(x);
            }
            al.push_back(e.v);
            e.own(s.gen, k); e.defaulted = false;
            if (!sp.composing) p.newfin.insert(o.name);
        }
        return p;
    }
    void do_store(const Line& l) {
        int mi = (int)((unsigned long)l.num(0) % NMAP);
        Parsed& s = slot[(unsigned long)l.num(1) % NSLOT];
        if (!s.live || !desc[s.desc] || s.gen != gen) { ev("store skipped"); return; }
        MapM& m = model[mi];
        po::variables_map& r = *real[mi];
        // values of an option that a failed source may or may not have settled are left out
        std::vector<bool> drop(s.occ.size(), false);
        bool any = false;
        for (size_t i = 0; i < s.occ.size(); ++i) {
            const Occ& o = s.occ[i];
            int k = find_spec(o.name);
            if (!o.name.empty() && !o.unreg && k >= 0 && m.unsure.count(o.name) && !m.fin.count(o.name) && m.e[o.name].v.some) drop[i] = any = true;
        }
        std::unique_ptr<po::parsed_options> cn; std::unique_ptr<po::wparsed_options> cw;
        if (any) {
            po::parsed_options base = s.n ? *s.n : s.w->utf8_encoded_options;
            std::vector<po::option> keep;
            for (size_t i = 0; i < base.options.size(); ++i) if (!drop[i]) keep.push_back(base.options[i]);
            base.options.swap(keep);
            if (s.n) cn.reset(new po::parsed_options(base)); else cw.reset(new po::wparsed_options(base));
        }
        std::string fault = l.arg(2);
        Pred p = predict(m, s, drop);
        std::map<std::string, Entry> before = m.e;
        validator.calls = 0; validator.threw = false; validator.throw_at = 0;
        if (fault == "val") { validator.throw_at = std::max(1L, l.num(3)); validator.kind = (int)((unsigned long)l.num(4) % 4); }
        log.clear();
        int got = 0; std::string what; bool userok = false;
        mem.failed = 0;
        {
            Oom oom(fault == "oom" ? (u64)std::max(0L, l.num(3)) : ~0ull, (u64)std::max(0L, l.num(4)));
            try {
                const po::parsed_options* pn = cn ? cn.get() : s.n.get();
                const po::wparsed_options* pw = cw ? cw.get() : s.w.get();
                lib([&] { if (pn) po::store(*pn, r); else po::store(*pw, r); return 0; });
            }
            catch (UserErr& e) { oom.off(); got = 4; userok = validator.threw && validator.kind == 0 && e.id == validator.id; what = e.what(); }
            catch (OddErr& e) { oom.off(); got = 4; userok = validator.threw && validator.kind == 1 && e.id == validator.id; what = "odd"; }
            catch (std::bad_alloc&) { oom.off(); got = 5; what = "bad_alloc"; }
            catch (po::unknown_option& e) { oom.off(); got = 1; what = e.what(); }
            catch (po::multiple_occurrences& e) { oom.off(); got = 3; what = e.what(); }
            catch (po::validation_error& e) { oom.off(); got = 2; what = e.what(); }
            catch (po::error& e) { oom.off(); got = 2; what = e.what(); }
            catch (std::exception& e) { oom.off(); got = 6; what = e.what(); }
        }
        ++nstore;
        u64 injected = mem.failed;
        if (injected) tally("fault.oom", injected);
        if (!log.empty()) violate("store-notifies", "a notifier ran while storing");
        ev("store " + N(mi) + " " + fault + " -> " + N(got) + " " + (got ? what : "") + " predicted " + N(p.err));
        if (validator.threw) {
            bool ok = validator.kind < 2 ? got == 4 && userok : validator.kind == 2 ? got == 2 || (injected && got == 5) : got == 5;
            if (!ok) violate("error-replaced", "the validator threw kind " + N(validator.kind) + ", the caller got " + N(got) + " " + what);
        } else if (injected) {
            if (got != 5 && got != p.err) violate("wrong-outcome", "after a failed allocation store gave " + N(got) + " " + what + " expected " + N(p.err));
        } else if (got != p.err) violate(got == 0 ? "error-missed" : p.err == 0 ? "rejected" : "wrong-error", "store gave " + N(got) + " '" + what + "' expected " + N(p.err) + " at option '" + p.key + "'");
        if (got == 0) {
            m.e = p.e;
            m.fin.insert(p.newfin.begin(), p.newfin.end());
            for (size_t i = 0; i < spec.size(); ++i) {
                if (!in_desc(spec[i].group, s.desc)) continue;
                Entry& e = m.e[spec[i].name];
                if (!e.v.some && spec[i].hasdef) { e.v = text_val(spec[i], spec[i].def); e.defaulted = true; e.own(s.gen, (int)i); }
                if (spec[i].required) { m.req.insert(spec[i].name); m.reqmaybe.erase(spec[i].name); }
            }
            compare(mi, "after a store");
            if (p.over.size()) {
                tally("implicit value over another");
                if (std::string(PROPERTY.id) == "C04") known_or_violate("implicit-over-value", "implicit-replaces", "'" + p.over + "' held a value when it was given without one, and the implicit value replaced it without an error");
            }
            tally("stores");
        } else {
            ++nfail; m.failed = true;
            tally(got == 5 ? "stores failed by memory" : got == 4 ? "stores failed by validator" : "stores failed by input");
            std::vector<std::pair<std::string, size_t> > names;
            for (size_t i = 0; i < spec.size(); ++i) if (!spec[i].wild) names.push_back(std::make_pair(spec[i].name, i));
            for (auto* st : {&before, &p.e}) for (auto& kv : *st) { int k = find_spec(kv.first); std::pair<std::string, size_t> x(kv.first, (size_t)k); if (k >= 0 && spec[k].wild && std::find(names.begin(), names.end(), x) == names.end()) names.push_back(x); }
            for (auto& ni : names) {
                const std::string& n = ni.first; size_t i = ni.second;
                if (spec[i].required && in_desc(spec[i].group, s.desc) && !m.req.count(n)) m.reqmaybe.insert(n);
                Entry g = entry_of(r, n), b;
                if (before.count(n)) b = before[n];
                if (p.mentioned.count(n)) {
                    bool ok = !g.v.some;
                    for (auto& a : p.allowed[n]) if (a == g.v) ok = true;
                    if (!ok) violate("foreign-value", "after a failed store '" + n + "' is " + g.v.str() + ", was " + b.v.str());
                    if (g.v.some && g.defaulted && !(b.defaulted && b.v == g.v)) {
                        // explicit content must not look like a default
                        violate("defaulted-flag", "after a failed store '" + n + "' claims to be a default");
                    }
                    if (g.v.some && !g.defaulted && b.defaulted && !p.e[n].v.some && p.allowed[n].size() < 2) violate("defaulted-flag", "default became explicit");
                    Entry e; e.v = g.v; e.defaulted = g.v.some && g.defaulted;
                    // whether a value stored only in part is announced, and by whose table, is not specified
                    if (g.v.some) e.own(s.gen, (int)i);
                    e.must = false;
                    if (b.v.some && b.sem && b.defaulted == e.defaulted) { e.keys.insert(b.keys.begin(), b.keys.end()); e.must = b.must; }
                    m.e[n] = e;
                    if (!spec[i].composing) m.unsure.insert(n);
                } else if (b.v.some) {
                    if (g.v != b.v || g.defaulted != b.defaulted) violate("settled-value-lost", "after a failed store '" + n + "', not part of it or settled before, is " + g.v.str() + ", was " + b.v.str());
                } else if (g.v.some) {
                    if (!(g.defaulted && spec[i].hasdef && g.v == text_val(spec[i], spec[i].def) && in_desc(spec[i].group, s.desc))) violate("foreign-value", "after a failed store '" + n + "', not part of it, is " + g.v.str());
                    Entry e; e.v = g.v; e.defaulted = true; e.own(s.gen, (int)i); e.must = false;
                    m.e[n] = e;
                }
            }
            compare(mi, "after a failed store");
        }
    }

    // ------------------------------------------------------------ notifying
    void notified(Key k, const Val& v) {
        Pause p;
        log.push_back(std::make_pair(k, v));
        if (notify_throw && (long)log.size() == notify_throw) {
            notify_threw = true; tally("fault.notifier_throw");
            throw_user(notify_kind, ++notify_id);
        }
    }
    void do_notify(const Line& l) {
        int mi = (int)((unsigned long)l.num(0) % NMAP);
        MapM& m = model[mi];
        po::variables_map& r = *real[mi];
        std::string fault = l.arg(1);
        for (auto& t : target) {
            const Val* ex = 0;
            for (auto& kv : m.e) if (kv.second.sem && kv.second.v.some && kv.second.keys.count(t.first)) ex = &kv.second.v;
            t.second->reset(ex);
        }
        log.clear(); notify_threw = false; notify_throw = 0;
        if (fault == "throw") { notify_throw = std::max(1L, l.num(2)); notify_kind = (int)((unsigned long)l.num(3) % 2); }
        std::set<std::string> missing, maybe;
        for (auto& q : m.req) if (!m.e.count(q) || !m.e[q].v.some) missing.insert(q);
        for (auto& q : m.reqmaybe) if (!m.e.count(q) || !m.e[q].v.some) maybe.insert(q);
        int got = 0; std::string what, named; bool same = false;
        mem.failed = 0;
        {
            Oom oom(fault == "oom" ? (u64)std::max(0L, l.num(2)) : ~0ull, (u64)std::max(0L, l.num(3)));
            try { if (l.num(4)) lib([&] { r.notify(); return 0; }); else lib([&] { po::notify(r); return 0; }); }
            catch (UserErr& e) { oom.off(); got = 4; same = notify_threw && notify_kind == 0 && e.id == notify_id; }
            catch (OddErr& e) { oom.off(); got = 4; same = notify_threw && notify_kind == 1 && e.id == notify_id; }
            catch (po::required_option& e) { oom.off(); got = 1; what = e.what(); named = e.get_option_name(); }
            catch (std::bad_alloc&) { oom.off(); got = 5; }
            catch (std::exception& e) { oom.off(); got = 6; what = e.what(); }
        }
        ++nnotify; tally("notifications");
        if (mem.failed) tally("fault.oom", mem.failed);
        ev("notify " + N(mi) + " -> " + N(got) + " " + what + " calls " + N((long long)log.size()) + " missing " + N((long long)missing.size()));
        compare(mi, "after a notification");
        std::map<Key, int> times;
        for (auto& x : log) if (++times[x.first] > 1 && !spec[x.first.idx].wild) violate("notified-twice", "option '" + spec[x.first.idx].name + "'");
        if (got == 1) {
            tally("required option reported");
            if (missing.empty() && maybe.empty()) violate("required-invented", what);
            bool ok = false;
            for (auto* st : {&missing, &maybe}) for (auto& q : *st) {
                std::string base = q[0] == '-' ? q.substr(1) : q;
                if (named.find(base) != std::string::npos && what.find(base) != std::string::npos) ok = true;
                int k = find_spec(q); // where only short options were allowed
                if (k >= 0 && spec[k].sh && named.size() == 2 && (named[0] == '-' || named[0] == '/') && named[1] == spec[k].sh && what.find("'" + named + "'") != std::string::npos) ok = true;
            }
            if (!ok) violate("required-unnamed", "message '" + what + "' names '" + named + "'");
            if (!log.empty()) violate("notified-incomplete", "a notifier ran although '" + named + "' is missing");
            for (auto& t : target) if (!t.second->untouched()) violate("target-incomplete", "target of '" + spec[t.first.idx].name + "' written although '" + named + "' is missing");
            return;
        }
        if (!missing.empty() && got != 5) violate("required-missed", "'" + *missing.begin() + "' has no value, notification gave " + N(got) + " " + what);
        if (!missing.empty() && !log.empty()) violate("notified-incomplete", "a notifier ran although '" + *missing.begin() + "' is missing");
        if (notify_threw ? got != 4 || !same : got == 4) violate("error-replaced", "the notifier's exception did not arrive: " + N(got));
        if (got == 5 && !mem.failed) violate("error-replaced", "bad_alloc without cause");
        if (got == 6) violate("wrong-error", what);
        std::set<Key> have;
        std::vector<Val> wild, told; // a wildcard option has many entries: every one is announced, once
        for (auto& x : log) if (spec[x.first.idx].wild) told.push_back(x.second);
        for (auto& kv : m.e) {
            const Entry& e = kv.second;
            if (!e.v.some || !e.sem) continue;
            if (spec[e.keys.begin()->idx].wild) {
                have.insert(e.keys.begin(), e.keys.end());
                if (!spec[e.keys.begin()->idx].notifier) continue;
                auto t = std::find(told.begin(), told.end(), e.v);
                if (t != told.end()) told.erase(t);
                else if (got == 0 && e.must) wild.push_back(e.v);
                continue;
            }
            int n = 0, w = 0;
            bool not_ = false, tgt = false;
            for (auto& k : e.keys) {
                have.insert(k);
                not_ = spec[k.idx].notifier; tgt = spec[k.idx].target;
                n += times.count(k) ? times[k] : 0;
                for (auto& x : log) if (x.first == k && x.second != e.v) violate("notified-value", "option '" + kv.first + "' notified with " + x.second.str() + " has " + e.v.str());
                if (tgt && !target[k]->untouched()) { ++w; Val t = target[k]->get(); if (t != e.v && got == 0) violate("target-value", "target of '" + kv.first + "' is " + t.str() + " value is " + e.v.str()); }
            }
            if (n > 1 || w > 1) violate("notified-twice", "option '" + kv.first + "'");
            if (not_ && got == 0 && n == 0 && e.must) violate("not-notified", "option '" + kv.first + "' was not notified");
            if (tgt && got == 0 && w == 0 && e.must) violate("target-value", "target of '" + kv.first + "' not written, value is " + e.v.str());
        }
        // an entry that need not be announced may have taken the call of one that must with the same value
        for (auto& v : wild) { size_t have_v = 0, want_v = 0; for (auto& x : log) have_v += spec[x.first.idx].wild && x.second == v; for (auto& kv : m.e) want_v += kv.second.v.some && kv.second.sem && kv.second.must && spec[kv.second.keys.begin()->idx].wild && kv.second.v == v; if (have_v < want_v) violate("not-notified", "a setting of a wildcard option, " + v.str() + ", was not notified"); }
        if (!told.empty()) violate("notified-value", "wildcard option notified with " + told[0].str() + " too often");
        for (auto& x : log) if (!have.count(x.first)) violate("notified-without-value", "option '" + spec[x.first.idx].name + "'");
        for (auto& t : target) if (!have.count(t.first) && !t.second->untouched()) violate("target-without-value", "target of '" + spec[t.first.idx].name + "' written, it has no value");
    }

    // ------------------------------------------------------------ running a plan
    void run(const Plan& p) {
        read_table(p);
        build();
        for (size_t i = 0; i < p.lines.size(); ++i) {
            const Line& l = p.lines[i];
            int a = (int)((unsigned long)l.num(0) % NMAP), b = (int)((unsigned long)l.num(1) % NMAP);
            if (l.op == "parse") {
                std::vector<RawOcc> raw;
                for (size_t j = i + 1; j < p.lines.size() && (p.lines[j].op == "occ" || p.lines[j].op == "opt" || p.lines[j].op == "nest" || p.lines[j].op == "pos"); ++j) {
                    const Line& o = p.lines[j];
                    if (o.op != "occ") continue;
                    RawOcc r; r.name = o.arg(0); r.form = std::abs(o.num(1)); for (size_t k = 2; k < o.a.size(); ++k) r.toks.push_back(o.a[k]);
                    if (r.toks.size() > 6) r.toks.resize(6);
                    raw.push_back(r);
                }
                do_parse(l, raw);
            }
            else if (l.op == "store") do_store(l);
            else if (l.op == "notify") do_notify(l);
            else if (l.op == "clear") {
                lib([&] { real[a]->clear(); return 0; });
                int nx = model[a].next; model[a] = MapM(); model[a].next = nx;
                ev("clear " + N(a)); tally("clears"); compare(a, "after clear");
            }
            else if (l.op == "copy") {
                if (a == b || cyclic_copy(a, b)) continue;
                lib([&] { *real[a] = *real[b]; return 0; });
                model[a] = model[b];
                ev("copy " + N(a) + "=" + N(b)); tally("copies"); compare(a, "after a copy"); compare(b, "after being copied");
            }
            else if (l.op == "clone") { // copy construction, and the clone replaces the map by assignment
                if (a == b || cyclic_copy(a, b)) continue;
                std::unique_ptr<po::variables_map> c(lib([&] { return new po::variables_map(*real[b]); }));
                *real[a] = *c; c.reset();
                model[a] = model[b];
                ev("clone " + N(a) + "=" + N(b)); tally("copies"); compare(a, "after a copy");
            }
            else if (l.op == "move") {
                if (a == b || cyclic_copy(a, b)) continue;
                lib([&] { *real[a] = std::move(*real[b]); real[b]->clear(); return 0; });
                model[a] = model[b];
                int nx = model[b].next; model[b] = MapM(); model[b].next = nx;
                ev("move " + N(a) + "=" + N(b)); tally("moves"); compare(a, "after a move"); compare(b, "after being moved from and cleared");
            }
            else if (l.op == "link") {
                if (l.num(1) < 0) { real[a]->next(0); model[a].next = -1; ev("unlink " + N(a)); }
                else if (a != b && !cyclic(a, b)) { real[a]->next(real[b].get()); model[a].next = b; ev("link " + N(a) + "->" + N(b)); ++nlink; tally("links"); }
            }
            else if (l.op == "ulink") { real[a]->next(&umap); model[a].next = NMAP; ev("link " + N(a) + " to the user's map"); ++nlink; tally("links"); }
            else if (l.op == "uset") {
                std::string n = l.arg(1);
                Entry e; e.v = Val::one("s" + l.arg(2)); e.defaulted = l.num(3) != 0; if (l.num(4)) e = Entry();
                umap.m[n] = l.num(4) ? po::variable_value() : po::variable_value(boost::any(l.arg(2)), e.defaulted); umodel[n] = e;
                ev("user map " + n);
            }
            else if (l.op == "fresh") { // a new map, constructed on top of another
                bool linked = false; for (int k = 0; k < NMAP; ++k) if (model[k].next == a) linked = true;
                if (linked) continue;
                int nx = l.num(1) < 0 || a == b || cyclic(a, b) ? -1 : b;
                real[a].reset(nx < 0 ? new po::variables_map() : new po::variables_map(real[nx].get()));
                model[a] = MapM(); model[a].next = nx;
                if (nx >= 0) ++nlink;
                ev("fresh " + N(a) + " on " + N(nx));
            }
            else if (l.op == "put") { // a value of the user's own, without option
                std::string n = "own." + l.arg(1);
                if (find_spec(n) >= 0) continue;
                auto ins = real[a]->insert(std::make_pair(n, po::variable_value(boost::any(l.arg(2)), l.num(3) != 0)));
                if (ins.second) { Entry e; e.v = Val::one("s" + l.arg(2)); e.defaulted = l.num(3) != 0; model[a].e[n] = e; }
                ev("put " + N(a) + " " + n);
            }
            else if (l.op == "lookup") { lookup(a, l.arg(1)); }
            else if (l.op == "build") build();
            else if (l.op == "redef") { // another table of the same options: default, composing and required may differ
                int k = find_spec(l.arg(0));
                if (k < 0 || spec[k].wild) continue;
                Spec& q = spec[k]; bool typed = q.kind != K_FLAG && q.kind != K_UNT;
                auto has = [&](char c) { return l.arg(1).find(c) != std::string::npos; };
                q.composing = has('c') && kind_vec(q.kind);
                q.required = has('r') && typed && q.kind != K_SWITCH;
                q.hasdef = q.kind == K_SWITCH || (has('d') && typed); q.def = l.arg(2);
                if (q.hasimp) q.imp = l.arg(3);
                build();
            }
            else if (l.op == "dropg") { group[(unsigned long)l.num(0) % 3].reset(); ev("drop group"); ++ndrop; tally("groups destroyed"); }
            else if (l.op == "dropd") { desc[(unsigned long)l.num(0) % NDESC].reset(); ev("drop table " + l.arg(0)); ++ndrop; tally("tables destroyed"); }
            else if (l.op == "dropp") { Parsed& s = slot[(unsigned long)l.num(0) % NSLOT]; s.n.reset(); s.w.reset(); if (s.live) { ++ndrop; tally("parsed options destroyed"); } s.live = false; ev("drop parsed"); }
            else if (l.op == "print") {
                int d = (int)((unsigned long)l.num(0) % NDESC);
                if (desc[d]) { std::ostringstream os; lib([&] { os << *desc[d]; return 0; }); if (os.str() != help[d]) violate("help-changed", "table " + N(d) + " printed " + os.str() + " when new it printed " + help[d]); ev("print " + N(d) + " " + hex(hash_str(os.str()))); }
            }
            if (l.op != "opt" && l.op != "nest" && l.op != "occ" && l.op != "pos" && l.op != "parse") {
                for (int k = 0; k < NMAP; ++k) if (k != a) compare(k, "bystander");
                u64 h = 0;
                for (auto& kv : model[a].e) h = mix(h, hash_str(kv.first) % 7 + 8 * kv.second.v.some + 16 * kv.second.defaulted + 32 * model[a].fin.count(kv.first) + 64 * std::min<size_t>(kv.second.v.el.size(), 3));
                state(mix(h, model[a].next + 10 * model[a].failed));
            }
        }
        // everything is still there at the end
        for (int k = 0; k < NMAP; ++k) {
            compare(k, "at the end");
            for (auto& s : spec) lookup(k, s.name);
            for (auto& kv : model[k].e) if (find_spec(kv.first) >= 0 && spec[find_spec(kv.first)].wild) lookup(k, kv.first);
            lookup(k, "nothing-of-that-name");
        }
    }
    bool cyclic_copy(int a, int b) const { return model[b].next >= 0 && (model[b].next == a || cyclic(a, model[b].next)); }
};

// ---------------------------------------------------------------- generators
inline std::string gen_value(Rng& r, int k, bool good) {
    static const char* ints[] = {"0", "5", "-3", "42", "2147483647", "-2147483648", "+7", "1000000", "017"};
    static const char* badints[] = {"x", "5x", "2147483648", "1.5", "--", "0x10", "", " 5", "99999999999999999999"};
    static const char* bools[] = {"on", "OFF", "yes", "No", "1", "0", "TRUE", "false"};
    static const char* badb[] = {"maybe", "2", "ye", "truee"};
    switch (k) {
    case K_INT: case K_VINT: case K_OPT: case K_SOPT: return good ? ints[r.below(9)] : badints[r.below(9)];
    case K_BOOL: case K_SWITCH: return good ? bools[r.below(8)] : badb[r.below(4)];
    case K_CUST: case K_VCUST: if (!good) return "bad" + N(r.range(0, 9));
    }
    static const char* parts[] = {"a", "b", "value", "two words", "=", "%value%", "\"q\"", "/", "-x", "1", "*", "[s]", "\xc3\xa9", "z=1", ":", "\\", "long-ish piece of text that does not fit into a small string buffer "};
    std::string s; int n = r.range(0, 3);
    for (int i = 0; i < n; ++i) { const char* q = parts[r.below(17)]; if ((kind_wide(k) || r.chance(5, 6)) && (unsigned char)q[0] >= 128) q = "e"; s += q; }
    if ((k == K_CUST || k == K_VCUST) && s.compare(0, 3, "bad") == 0) s = "x";
    if (r.chance(1, 25)) { size_t n = r.loguniform(600); while (s.size() < n) s += (char)r.range('a', 'z'); }
    return s;
}
struct WorldGen {
    Rng& r; Plan& p; int tier;
    struct O { std::string name; int kind; bool req, imp; };
    std::vector<O> o;
    WorldGen(Rng& r, Plan& p, int t) : r(r), p(p), tier(t) {}
    void table(int lo, int hi, unsigned pdef, unsigned preq, unsigned pnot, unsigned pcust) { // chances in percent
        static const char* names[] = {"alpha", "beta", "gamma", "delta-x", "sec.one", "a-section.with-long-name", "deep.er.key", "verbose", "include", "output-file-directory", "jobs", "kind9-with-a-longer-name", "quiet", "warn", "zeta_z", "log.level", "log", "alpha-beta", "out", "sec.one.b", "verbosely", "log-file"};
        std::vector<int> perm; for (int i = 0; i < 22; ++i) perm.push_back(i);
        for (int i = 21; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]);
        int n = r.range(lo, hi);
        if (r.chance(1, 30)) n = r.range(hi, 22);
        if (r.chance(1, 60)) n = r.range(22, 70);
        int wildat = r.chance(1, 6) ? (int)r.below(n) : -1;
        for (int i = 0; i < n; ++i) {
            O x; x.name = i < 22 ? names[perm[i]] : "opt-" + N(i * 7 % 100) + "x";
            if (i == wildat) x.name = "any.*"; x.kind = (int)r.below(K_N);
            if (r.below(100) < pcust) x.kind = r.chance(1, 2) ? K_CUST : K_VCUST;
            else if (r.chance(1, 5)) x.kind = r.chance(1, 2) ? K_VSTR : K_VINT;
            std::string f, sh = i < 22 && r.chance(1, 2) ? std::string(1, (char)("abcdefghijklmnopqrstuvwxyz"[perm[i]])) : "";
            x.req = r.below(100) < preq; x.imp = r.chance(1, 6);
            if (r.chance(1, 2)) f += 'c';
            if (r.chance(1, 3)) f += 'm';
            if (x.req) f += 'r';
            if (r.below(100) < pdef) f += 'd';
            if (x.imp) f += 'i';
            if (r.below(100) < pnot) f += 'n';
            if (r.below(100) < pnot) f += 't';
            if (r.chance(1, 6)) f += 'w';
            std::string nm = x.name;
            if (r.chance(1, 40) && !sh.empty()) { nm = ""; x.name = "-" + sh; }
            p.add("opt", {nm, sh, N(x.kind), f, gen_value(r, x.kind, true), gen_value(r, x.kind, true), N(r.range(0, 2)), r.chance(1, 6) ? (r.chance(1, 2) ? "second-" + x.name : x.name + (r.chance(1, 2) ? "ing" : "-alias")) : ""});
            o.push_back(x);
        }
        if (r.chance(1, 2)) p.add("nest", {N(r.range(1, 2))});
        if (r.chance(1, 3)) { int k = r.range(1, 2); for (int i = 0; i < k; ++i) p.add("pos", {r.pick(o).name, N(r.chance(1, 3) ? -1 : r.range(1, 3))}); }
    }
    void redef() {
        const O& x = r.pick(o);
        std::string f = r.chance(2, 3) ? "d" : "";
        if (r.chance(1, 2)) f += 'c';
        if (x.req ? r.chance(1, 2) : r.chance(1, 15)) f += 'r';
        p.add("redef", {x.name, f, gen_value(r, x.kind, true), gen_value(r, x.kind, true)});
    }
    void occs(int lo, int hi, unsigned pbad, unsigned prep) {
        int n = r.range(lo, hi);
        if (r.chance(1, 40)) n = r.range(hi, 8 * hi + 10);
        std::set<std::string> used;
        for (int i = 0; i < n; ++i) {
            std::vector<std::string> a;
            if (r.chance(1, 12)) { a = {"", N(r.range(0, 1))}; int k = r.range(1, 2); for (int j = 0; j < k; ++j) a.push_back(gen_value(r, r.pick(o).kind, true)); p.add("occ", a); continue; }
            if (r.chance(1, 25)) { p.add("occ", {r.chance(1, 3) ? "alph" : r.chance(1, 2) ? "second-unknown" : "unknown9", N(r.range(0, 9)), gen_value(r, K_STR, true)}); continue; }
            O x = r.pick(o);
            if (x.name[x.name.size() - 1] == '*') { static const char* sfx[] = {"one", "two", "b", "level", "x.y"}; x.name = x.name.substr(0, x.name.size() - 1) + sfx[r.below(5)]; }
            if (used.count(x.name) && !kind_vec(x.kind) && r.below(100) >= prep) continue;
            used.insert(x.name);
            a = {x.name, N(r.range(0, 14))};
            int k = kind_vec(x.kind) ? r.range(r.chance(1, 12) ? 0 : 1, 3) : x.kind == K_FLAG || x.kind == K_SWITCH ? (r.chance(1, 3) ? 1 : 0) : 1;
            if (x.imp && r.chance(1, 2)) k = 0;
            if (r.below(100) < pbad) { if (r.chance(1, 5)) k = 2; else if (r.chance(1, 8)) { k = 0; a[1] = "7"; } }
            for (int j = 0; j < k; ++j) a.push_back(gen_value(r, x.kind, !(r.below(100) < pbad)));
            p.add("occ", a);
        }
    }
    void parse(int slot, int lo, int hi, unsigned pbad, unsigned prep) {
        static const char* src[] = {"c", "c", "f", "e", "m"};
        p.add("parse", {N(slot), src[r.below(5)], N(r.chance(1, 2) ? 0 : r.range(0, 3)), r.chance(1, 4) ? "1" : "0", r.chance(1, 3) ? "1" : "0", r.chance(1, 2) ? "1" : "0", r.chance(1, 2) ? "0" : N(r.range(1, 5))});
        occs(lo, hi, pbad, prep);
    }
};
} // namespace sim
#define SIM_WORLD_DEFS namespace sim { Validator validator; }
#endif
