// C12: every error the library reports can be read out, always.
// Each scenario provokes one error twice: with plain names and values, and with hostile ones
// in their place. The hostile message must be the plain one with the texts exchanged, read
// with and without failing allocations, from copies and after rethrowing.
#include "cvt.hpp"
#include <boost/program_options.hpp>
#include <boost/optional.hpp>
#include <exception>
#include <memory>
#include <sstream>
extern char** environ;
namespace po = boost::program_options;
using namespace sim;
namespace cs = boost::program_options::command_line_style;

static const int NSCEN = 69;
static std::string hostile(Rng& r) {
    static const char* f[] = {"%canonical_option%", "%value%", "%option%", "%prefix%", "%original_token%", "%invalid_line%", "%", "%%", "'", "\"", "\n", "\t", "\xff\xfe", "\xc3\xa9", "--", "-", "/", " ", "%s%n", "%canonical_option", "canonical_option%", "\\", "option '%canonical_option%'", "argument ('%value%')", "A", "x*y", "[", "(", "\x01", "%canonical_option%%value%", "is invalid", "%n%"};
    std::string s; int n = r.chance(1, 8) ? 0 : r.range(1, 5);
    for (int i = 0; i < n; ++i) s += f[r.below(32)];
    if (r.chance(1, 20)) s += std::string((size_t)r.range(100, 3000), 'L');
    return s;
}
static Plan generate(Rng& r, int tier) {
    Plan p;
    int n = r.range(1, tier ? 4 : 2);
    for (int i = 0; i < n; ++i) {
        p.add("err", {N(r.range(0, NSCEN - 1)), hostile(r), hostile(r), std::string(1, "%'\"\\?ZZ&1@"[r.below(10)]), N(r.range(0, 9))});
        int m = r.range(1, 5);
        for (int k = 0; k < m; ++k) switch (r.range(0, 4)) {
            case 0: case 1: p.add("oom", {N((long)r.loguniform(60)), N(r.chance(1, 2) ? 0 : 1), N(r.chance(3, 4) ? 0 : (long)r.loguniform(300))}); break;
            case 2: p.add("copy"); break;
            case 3: p.add("rethrow"); break;
            default: p.add("read"); break;
            }
    }
    return p;
}

struct Names { std::string name, value; char sh; }; // name: option; value: value or token
struct OptRejected {};
static int STYLE(long s) {
    switch (s % 5) {
    case 0: return cs::unix_style;
    case 1: return s > 4 ? (cs::unix_style & ~cs::allow_long) | cs::allow_long_disguise : cs::unix_style | cs::allow_long_disguise;
    case 2: return cs::allow_slash_for_short | cs::allow_short | cs::allow_long | cs::long_allow_adjacent | cs::short_allow_adjacent | cs::long_allow_next | cs::short_allow_next | cs::allow_guessing;
    case 3: return cs::unix_style & ~cs::allow_guessing;
    default: return cs::unix_style | cs::case_insensitive;
    }
}
// only short options, with dashes or slashes
static int SHORT(long v) { return cs::allow_short | cs::short_allow_adjacent | cs::short_allow_next | (v % 2 ? cs::allow_slash_for_short : cs::allow_dash_for_short); }
struct UserV { int x; };
static int uv_kind;
static void validate(boost::any&, const std::vector<std::string>& xs, UserV*, int) {
    switch (uv_kind) {
    case 0: throw po::validation_error(po::validation_error::invalid_option);
    case 1: throw po::invalid_option_value(xs.empty() ? std::string("none") : xs[0]);
    case 2: throw po::validation_error(po::validation_error::at_least_one_value_required);
    case 3: throw po::multiple_values();
    case 4: { po::error_with_option_name e("user template for '%canonical_option%', token '%original_token%', of '%mine%'"); e.set_substitute("mine", xs.empty() ? "" : xs[0]); throw e; }
    default: { po::error_with_option_name e("no default for argument ('%mine%') of option '%canonical_option%'"); e.set_substitute_default("mine", "argument ('%mine%')", "something"); throw e; }
    }
}
struct UserB { int x; };
static void validate(boost::any&, const std::vector<std::string>&, UserB*, int) { throw boost::bad_lexical_cast(); }
// Provokes the error; returns normally if there was none.
static void provoke(long scen, const Names& n, long variant) {
    po::options_description d("o");
    std::string spec = n.name + "," + n.sh;
    const char* s = spec.c_str();
    std::vector<std::string> a;
    auto parse = [&](int style) { return po::command_line_parser(a).options(d).style(style).run(); };
    auto into = [&](const po::parsed_options& p) { po::variables_map m; po::store(p, m); po::notify(m); };
    int style = STYLE(variant);
    std::string lo = variant % 5 == 1 && variant > 4 ? "-" : "--";
    switch (scen) {
    case 0: d.add_options()(s, ""); a.push_back(lo + "other" + n.value); into(parse(style)); break;
    case 1: d.add_options()("zzz", ""); a.push_back(std::string("-") + n.sh); into(parse(style)); break;
    case 2: d.add_options()((n.name + "1").c_str(), "")((n.name + "2").c_str(), "")((n.name + "33").c_str(), ""); a.push_back(lo + n.name); into(parse(cs::unix_style | (lo == "-" ? (int)cs::allow_long_disguise : 0))); break;
    case 3: d.add_options()(s, po::value<int>(), ""); a.push_back(lo + n.name); into(parse(style)); break;
    case 4: d.add_options()(s, po::bool_switch(), ""); a.push_back(lo + n.name + "=" + n.value); into(parse(style)); break;
    case 5: d.add_options()(s, po::value<std::string>(), ""); a.push_back(lo + n.name + "="); into(parse(style)); break;
    case 6: d.add_options()(s, po::value<std::string>(), ""); a.push_back(lo + n.name + "=1"); a.push_back(lo + n.name + "=2"); into(parse(style)); break;
    case 7: d.add_options()(s, po::value<int>(), ""); a.push_back(lo + n.name + "=" + n.value); into(parse(style)); break;
    case 8: d.add_options()(s, po::value<bool>(), ""); a.push_back(lo + n.name + "=" + n.value); into(parse(style)); break;
    case 9: d.add_options()(s, po::value<bool>()->required(), "")("other", ""); a.push_back(lo + "other"); into(parse(style)); break;
    case 10: { d.add_options()(s, ""); po::positional_options_description pd; pd.add("other", 1); a.push_back(n.value); a.push_back("b"); po::command_line_parser(a).options(d).positional(pd).run(); break; }
    case 11: { d.add_options()("zzz", ""); std::istringstream is(n.name + " = " + n.value + "\n"); po::parse_config_file(is, d); break; }
    case 12: { d.add_options()("zzz", ""); std::istringstream is(n.value + "\n"); po::parse_config_file(is, d); break; }
    case 13: { d.add_options()(n.name.c_str(), po::value<int>(), ""); std::string e = "X=" + n.value; char* env[] = {&e[0], 0}; char** k = environ; struct B { char** k; ~B() { environ = k; } } b = {k}; environ = env; const std::string& nm = n.name; into(po::parse_environment(d, [&](std::string) { return nm; })); break; }
    case 14: po::parse_config_file(("/nonexistent/" + n.value).c_str(), d); break;
    case 15: { d.add_options()(n.name.c_str(), po::value<int>(), ""); std::istringstream is(n.name + " = " + n.value + "\n"); into(po::parse_config_file(is, d)); break; }
    case 16: { static const int st[] = {0, cs::allow_long, cs::allow_dash_for_short, cs::allow_slash_for_short, cs::allow_long_disguise}; throw po::validation_error((po::validation_error::kind_t)(30 + variant % 5), n.name, std::string(1, n.sh) + n.value, st[(variant + n.value.size() % 1) % 5]); }
    case 17: throw po::invalid_command_line_syntax((po::invalid_syntax::kind_t)(30 + variant % 6), n.name, n.value, variant > 5 ? cs::allow_long : 0);
    case 18: uv_kind = (int)(variant % 6); d.add_options()(s, po::value<UserV>(), ""); a.push_back(lo + n.name + "=" + n.value); into(parse(style)); break;
    case 19: { d.add_options()(s, po::value<int>(), ""); po::positional_options_description pd; pd.add(n.name.c_str(), 1); a.push_back(n.value); into(po::command_line_parser(a).options(d).positional(pd).run()); break; }
    case 20: { d.add_options()(s, po::wvalue<int>(), ""); std::vector<std::wstring> w; w.push_back(widen("--" + n.name + "=" + n.value)); po::variables_map m; po::store(po::wcommand_line_parser(w).options(d).run(), m); break; }
    case 21: d.add_options()(n.name.c_str(), "")(n.name.c_str(), ""); a.push_back(lo + n.name); into(parse(style)); break;
    case 22: d.add_options()(s, po::value<int>(), ""); a.push_back((variant % 5 == 2 ? "/" : "-") + std::string(1, n.sh) + n.value); into(parse(style)); break;
    case 23: { d.add_options()((n.name + "*").c_str(), "")((n.name + (variant % 2 ? "zz*" : "!!*")).c_str(), "")("0aaa*", ""); std::istringstream is(""); po::parse_config_file(is, d); break; }
    case 24: d.add_options()(s, po::value<int>()->multitoken(), ""); a.push_back(lo + n.name); a.push_back("1"); a.push_back(n.value); into(parse(style)); break;
    case 25: d.add_options()(s, po::value<int>()->zero_tokens(), ""); a.push_back(lo + n.name); into(parse(style)); break;
    case 26: d.add_options()(n.name.c_str(), ""); d.find("other" + n.value, false); break;
    case 27: { po::variables_map m; d.add_options()(s, po::value<int>()->required(), ""); po::store(po::parsed_options(&d, (int)(variant % 2 ? cs::allow_long : 0)), m); po::notify(m); break; }
    case 28: { d.add_options()(s, ""); a.push_back(lo + n.name); a.push_back(lo + n.name); into(parse(style)); break; } // a flag twice
    case 29: { po::parsed_options p(&d, 0); d.add_options()(s, po::value<int>(), ""); po::option o; o.string_key = n.name; o.value.push_back(n.value); o.original_tokens.push_back(n.value); p.options.push_back(o); into(p); break; }
    case 30: throw po::required_option(n.name);
    case 31: throw po::unknown_option(n.value);
    case 32: { std::vector<std::string> v; v.push_back(n.name); v.push_back(n.value); po::ambiguous_option e(v); e.add_context(n.name, n.value, variant % 2 ? cs::allow_long : 0); throw e; }
    case 33: { std::vector<std::string> v; if (variant % 3) v.push_back(n.name); if (variant % 3 == 2) v.push_back(n.name); po::ambiguous_option e(v); if (v.empty()) throw po::multiple_occurrences(); e.set_original_token(n.value); throw e; }
    case 34: { po::invalid_bool_value e(n.value); e.add_context(n.name, n.value, cs::allow_dash_for_short); throw e; }
    case 35: { po::invalid_option_value e(widen(n.value)); e.set_option_name(n.name); throw e; }
    case 36: throw po::invalid_config_file_syntax(n.value, (po::invalid_syntax::kind_t)(30 + variant % 7));
    case 37: { d.add_options()("zzz", ""); std::wistringstream is(widen(n.value) + L"\n"); po::parse_config_file(is, d); break; }
    case 38: throw po::error_with_option_name("a message about '%canonical_option%' and nothing else", n.name, n.value, variant % 2 ? cs::allow_long : 0);
    case 39: { d.add_options()("zzz", ""); std::vector<std::wstring> w; w.push_back(widen("--" + n.name + "=" + n.value)); po::wcommand_line_parser(w).options(d).run(); break; }
    case 40: d.add_options()("0xf,0", "")((n.name + "1," + n.sh).c_str(), "")((n.name + "2," + n.sh).c_str(), ""); a.push_back(std::string("-0") + n.sh); into(parse((style | cs::allow_long | cs::allow_dash_for_short | cs::allow_sticky) & ~(cs::case_insensitive | cs::allow_long_disguise))); break; // inside a group: no token of its own
    case 41: { d.add_options()((n.name + "1").c_str(), "")((n.name + "2").c_str(), ""); a.push_back("t"); std::string nm = n.name; into(po::command_line_parser(a).options(d).extra_parser([nm](const std::string&) { return std::make_pair(nm, std::string()); }).run()); break; }
    case 42: { d.add_options()("zzz", ""); a.push_back("t"); std::string nm = n.name; into(po::command_line_parser(a).options(d).extra_parser([nm](const std::string&) { return std::make_pair(nm, std::string("1")); }).run()); break; }
    case 43: { if (variant % 3) d.add_options()(s, ""); else d.add_options()((n.name + "1").c_str(), "")((n.name + "2").c_str(), ""); a.push_back("t"); std::string nm = n.name, v = n.value;
        into(po::command_line_parser(a).options(d).extra_style_parser([nm, v, variant](std::vector<std::string>& t) { std::vector<po::option> r; if (!t.empty()) { t.erase(t.begin()); po::option o; o.string_key = nm; if (variant % 3 != 2) o.value.push_back(v); if (variant % 2) o.original_tokens.push_back(v); r.push_back(o); } return r; }).run()); break; }
    case 44: { d.add_options()((n.name + (variant % 2 ? "" : ",") + (variant % 2 ? "" : std::string(1, n.sh))).c_str(), "")(n.name.c_str(), ""); std::istringstream is(n.name + " = 1\n"); po::parse_config_file(is, d); break; }
    case 45: { d.add_options()("zzz", ""); po::positional_options_description pd; pd.add(n.name.c_str(), 1); a.push_back(n.value); into(po::command_line_parser(a).options(d).positional(pd).run()); break; }
    case 46: { d.add_options()(s, po::value<std::vector<int> >(), ""); a.push_back(lo + n.name + "=1"); a.push_back(lo + n.name + "=" + n.value); into(parse(style)); break; }
    case 47: d.add_options()(s, po::value<double>(), ""); a.push_back(lo + n.name); a.push_back(n.value); into(parse(style)); break;
    case 48: d.add_options()(s, po::value<char>(), ""); a.push_back(lo + n.name + "=" + n.value); into(parse(style)); break;
    case 49: { d.add_options()(s, po::value<boost::optional<int> >(), ""); a.push_back(lo + n.name + "=" + n.value); into(parse(style)); break; }
    case 50: d.add_options()((n.name + "long").c_str(), po::value<int>(), ""); a.push_back("--" + n.name + "=" + n.value); into(parse(cs::unix_style)); break; // abbreviated
    case 51: { d.add_options()(s, po::value<std::string>(), ""); std::istringstream is(n.name + " = 1\n" + n.name + " = 2\n"); into(po::parse_config_file(is, d)); break; }
    case 52: { d.add_options()("zzz", ""); std::vector<std::wstring> w; w.push_back(widen("--" + n.name)); po::variables_map m; po::store(po::wcommand_line_parser(w).options(d).run(), m); break; }
    case 53: { d.add_options()((n.name + "1").c_str(), "")((n.name + "2").c_str(), ""); d.find(n.name, true); break; }
    case 54: { po::options_description e; d.add_options()(s, po::value<int>()->required(), "")("other", ""); e.add(d); po::variables_map m, m2; std::istringstream is("other = 1\n"); po::store(po::parse_config_file(is, e), m); if (variant % 2) m.next(&m2); if (variant % 3) { a.push_back("--other"); po::store(po::command_line_parser(a).options(e).run(), m2); } po::notify(m); break; }
    case 55: { d.add_options()((std::string(",") + n.sh).c_str(), po::value<int>(), ""); a.push_back(std::string(variant % 5 == 2 ? "/" : "-") + n.sh); if (variant % 2) a.push_back("v" + n.value); into(parse(style)); break; }
    case 56: { d.add_options()((n.name + ".*").c_str(), po::value<int>(), ""); std::istringstream is("[" + n.name + "]\nq = " + n.value + "\n"); into(po::parse_config_file(is, d)); break; }
    case 58: d.add_options()("0xf,0", "")(s, "")(n.name.c_str(), ""); a.push_back(std::string("-0") + n.sh); into(parse((style | cs::allow_long | cs::allow_dash_for_short | cs::allow_sticky) & ~(cs::case_insensitive | cs::allow_long_disguise))); break; // the short name is found, what it stands for is not clear
    case 59: { d.add_options()(s, "")(n.name.c_str(), ""); a.push_back("t"); std::string nm = std::string("-") + n.sh; into(po::command_line_parser(a).options(d).extra_style_parser([nm](std::vector<std::string>& t) { std::vector<po::option> r; if (!t.empty()) { t.erase(t.begin()); po::option o; o.string_key = nm; r.push_back(o); } return r; }).run()); break; }
    case 60: d.add_options()((std::string(",") + n.sh).c_str(), "")((std::string(",") + n.sh).c_str(), ""); a.push_back((variant % 5 == 2 ? "/" : "-") + std::string(1, n.sh)); into(parse(style)); break; // no long names at all
    case 61: { static const int st[] = {cs::allow_long | cs::allow_guessing, cs::allow_short | cs::allow_dash_for_short, cs::allow_short | cs::short_allow_next | cs::allow_long | cs::long_allow_next, cs::allow_long_disguise, cs::allow_short | cs::allow_slash_for_short | cs::allow_sticky}; d.add_options()(s, ""); a.push_back("--" + n.name); into(parse(st[variant % 5])); break; }
    case 62: d.add_options()(s, po::value<int>(), ""); a.push_back((variant % 2 ? "/" : "-") + std::string(1, n.sh) + n.value); into(parse(SHORT(variant))); break;
    case 63: d.add_options()(s, po::value<int>()->required(), ""); into(parse(SHORT(variant))); break;
    case 64: d.add_options()((n.name + "1," + n.sh).c_str(), "")((n.name + "2," + n.sh).c_str(), ""); a.push_back((variant % 2 ? "/" : "-") + std::string(1, n.sh)); into(parse(SHORT(variant))); break;
    case 65: { d.add_options()(s, ("a\tb\t" + n.value).c_str()); std::ostringstream o; o << d; break; }
    case 66: d.add_options()(s, po::value<std::vector<UserB> >(), ""); a.push_back(lo + n.name + "=" + n.value); into(parse(style)); break;
    case 67: { d.add_options()(s, po::wvalue<bool>(), ""); std::vector<std::wstring> w; w.push_back(widen("--" + n.name + "=" + n.value)); po::variables_map m; po::store(po::wcommand_line_parser(w).options(d).run(), m); break; }
    case 68: { po::invalid_option_value e(std::wstring(1, (wchar_t)0xD800) + L"x"); e.set_option_name(n.name); throw e; }
    case 57: { d.add_options()("zzz", ""); std::istringstream is("[" + n.name + "]\nq = " + n.value + "\n"); into(po::parse_config_file(is, d)); break; }
    }
}
static std::string replace_all(std::string s, const std::vector<std::pair<std::string, std::string> >& by) {
    std::string r;
    for (size_t i = 0; i < s.size();) {
        bool hit = false;
        for (auto& b : by) if (s.compare(i, b.first.size(), b.first) == 0) { r += b.second; i += b.first.size(); hit = true; break; }
        if (!hit) r += s[i++];
    }
    return r;
}
// what the rules of each source do not allow inside a name or value is taken out
static void adapt(long scen, Names& h) {
    auto drop = [](std::string& s, const char* bad) { std::string r; for (char c : s) if (!strchr(bad, c)) r += c; s = r; };
    drop(h.name, "=,*");
    switch (scen) {
    case 11: case 12: case 15: case 44: case 51: case 56: case 57: drop(h.name, "#\n\r["); drop(h.value, "#\n\r["); if (scen == 12) drop(h.value, "="); break;
    case 37: drop(h.value, "#\n\r[="); break;
    case 0: case 26: drop(h.value, "="); break;
    case 39: case 52: drop(h.value, "="); break;
    }
    if (scen == 20 || scen == 35 || scen == 37 || scen == 39 || scen == 52 || scen == 67) { // wide texts: only what is text
        h.name = narrow(widen(h.name)); h.value = narrow(widen(h.value));
    }
    auto nonul = [](std::string& s) { std::string r; for (char c : s) if (c) r += c; s = r; };
    nonul(h.name); nonul(h.value);
}
struct Read { bool threw; std::string type, msg, opt, tokens; std::vector<std::string> alt; };
static Read describe(const std::exception& e) {
    Read r; r.threw = true; r.type = typeid(e).name();
    r.msg = lib([&] { return std::string(e.what()); });
    if (auto* o = dynamic_cast<const po::error_with_option_name*>(&e)) r.opt = lib([&] { return o->get_option_name(); });
    if (auto* o = dynamic_cast<const po::invalid_syntax*>(&e)) r.tokens = lib([&] { return o->tokens(); });
    if (auto* o = dynamic_cast<const po::ambiguous_option*>(&e)) r.alt = o->alternatives();
    return r;
}
template<class T> static bool copy_as(const std::exception& e, std::unique_ptr<std::exception>& out) {
    const T* t = dynamic_cast<const T*>(&e);
    if (!t) return false;
    lib([&] { out.reset(new T(*t)); return 0; });
    return true;
}
static bool copy_of(const std::exception& e, std::unique_ptr<std::exception>& out) {
    return copy_as<po::invalid_bool_value>(e, out) || copy_as<po::invalid_option_value>(e, out) || copy_as<po::validation_error>(e, out) || copy_as<po::invalid_command_line_syntax>(e, out) ||
        copy_as<po::invalid_config_file_syntax>(e, out) || copy_as<po::ambiguous_option>(e, out) || copy_as<po::unknown_option>(e, out) || copy_as<po::required_option>(e, out) ||
        copy_as<po::multiple_occurrences>(e, out) || copy_as<po::multiple_values>(e, out) || copy_as<po::error_with_option_name>(e, out) || copy_as<po::reading_file>(e, out) || copy_as<po::error>(e, out);
}

static void execute(const Plan& p) {
    step_limit = 10000000; mem.cap_bytes = 2ull << 20;
    CvtScript cv; cv.enc = 0; install(&cv);
    AtExit<std::function<void()> > reset([] { std::locale::global(std::locale::classic()); });
    std::exception_ptr cur; Read want; bool have = false; std::string label; bool oomed = false;
    std::unique_ptr<std::exception> copy;
    auto check = [&](const char* how, const Read& r) {
        ev(label + " " + how + ": " + hex(hash_str(r.msg)));
        if (r.msg.empty()) violate("empty-message", label + " " + how);
        if (r.msg != want.msg) violate("message-wrong", label + " " + how + ": '" + r.msg.substr(0, 300) + "' instead of '" + want.msg.substr(0, 300) + "'");
        if (r.opt != want.opt) violate("name-wrong", label + " " + how + ": option name '" + r.opt + "' instead of '" + want.opt + "'");
        if (r.tokens != want.tokens) violate("name-wrong", label + " " + how + ": tokens '" + r.tokens + "' instead of '" + want.tokens + "'");
        if (r.alt != want.alt) violate("name-wrong", label + " " + how + ": alternatives");
    };
    auto with = [&](std::function<void(const std::exception&)> f) {
        if (copy) { f(*copy); return; }
        try { std::rethrow_exception(cur); } catch (std::exception& e) { f(e); }
    };
    for (auto& l : p.lines) {
        if (l.op == "err") {
            have = false; copy.reset(); cur = std::exception_ptr();
            long scen = (unsigned long)l.num(0) % NSCEN, variant = (unsigned long)l.num(4) % 10;
            Names b, h; b.name = "qNAMEq"; b.value = "vVALUEv"; b.sh = 'Z';
            h.name = l.arg(1); h.value = l.arg(2); h.sh = l.arg(3).empty() ? 'Z' : l.arg(3)[0];
            adapt(scen, h);
            h.name = "q" + h.name + "q"; h.value = "v" + h.value + "v";
            if (h.sh == '=' || h.sh == ',' || h.sh == '-' || h.sh == '/' || h.sh <= ' ' || h.sh >= 127) h.sh = 'Z';
            if (scen == 20 || scen == 39 || scen == 52 || scen == 67) h.sh = 'Z';
            label = "scenario " + N(scen) + "/" + N(variant);
            auto go = [&](const Names& n, std::exception_ptr& out) {
                Read r; r.threw = false;
                try { lib([&] { provoke(scen, n, variant); return 0; }); }
                catch (std::exception& e) { out = std::current_exception(); r = describe(e); }
                return r;
            };
            std::exception_ptr pb, ph;
            Read rb = go(b, pb);
            const char* kept = 0; // the text of one error, while others are raised and read
            if (pb) try { std::rethrow_exception(pb); } catch (std::exception& e) { kept = lib([&] { return e.what(); }); }
            Read rh = go(h, ph);
            if (kept && rb.msg != kept) violate("message-wrong", label + ": the text of an error turned into '" + std::string(kept).substr(0, 300) + "' when another one was reported");
            if (rb.threw != rh.threw || rb.type != rh.type) violate("error-depends-on-text", label + ": " + (rb.threw ? rb.type + " " + rb.msg : "no error") + " with plain texts, " + (rh.threw ? rh.type + " " + rh.msg.substr(0, 300) : "no error") + " with hostile ones");
            if (!rb.threw) { ev(label + " no error"); tally("scenarios without an error"); continue; }
            tally("errors provoked"); state(mix(scen, mix(variant, hash_str(rb.type))));
            nontrivial();
            std::vector<std::pair<std::string, std::string> > by; by.push_back(std::make_pair(b.name, h.name)); by.push_back(std::make_pair(b.value, h.value));
            by.push_back(std::make_pair(std::string(1, b.sh), std::string(1, h.sh)));
            if (rb.msg.empty()) violate("empty-message", label);
            // the plain message: names what it should, and is fully expanded
            for (const char* ph2 : {"%canonical_option%", "%value%", "%prefix%", "%option%", "%original_token%", "%invalid_line%", "%mine%"}) if (rb.msg.find(ph2) != std::string::npos) violate("placeholder-left", label + ": " + rb.msg);
            static const char* need[NSCEN] = {"otherv", "Z", "qNAMEq", "qNAMEq", "qNAMEq", "qNAMEq", "qNAMEq", "vVALUEv", "vVALUEv", "qNAMEq", "too many positional", "qNAMEq", "vVALUEv", 0, "vVALUEv", "vVALUEv", 0, 0, 0, "vVALUEv", "vVALUEv", "qNAMEq", 0, 0, "qNAMEq", "qNAMEq", "'othervVALUEv'", "qNAMEq", 0, "vVALUEv", "qNAMEq", "vVALUEv", "qNAMEq", 0, "vVALUEv", "vVALUEv", 0, "vVALUEv", "qNAMEq", "qNAMEq",
                /*40*/ "Z", "qNAMEq", "qNAMEq", "qNAMEq", "qNAMEq", "vVALUEv", "vVALUEv", "vVALUEv", "vVALUEv", "vVALUEv", "vVALUEv", "qNAMEq", "qNAMEq", "'qNAMEq'", "qNAMEq", "Z", "vVALUEv", "qNAMEq", "qNAMEq", "qNAMEq", "Z",
                /*61*/ "misconfiguration", "vVALUEv", "Z", "Z", "tab", "vVALUEv", "vVALUEv", "unrepresentable"};
            if (need[scen] && rb.msg.find(need[scen]) == std::string::npos) violate("offender-unnamed", label + ": '" + rb.msg + "' does not show '" + need[scen] + "'");
            if ((scen == 7 || scen == 8 || scen == 13 || scen == 15 || scen == 19 || scen == 20 || scen == 29 || (scen >= 46 && scen <= 50)) && rb.msg.find("qNAMEq") == std::string::npos) violate("offender-unnamed", label + ": '" + rb.msg + "' does not name the option");
            // spelled as it can be given in this style
            const std::string pfx = variant == 6 ? "-" : "--";
            if (((scen >= 3 && scen <= 9 && (scen != 5 || variant != 6)) || scen == 22 || scen == 24 || scen == 25 || scen == 28 || (scen >= 46 && scen <= 49)) && rb.msg.find("'" + pfx + "qNAMEq'") == std::string::npos) violate("offender-unnamed", label + ": '" + rb.msg + "' does not name the option '" + pfx + "qNAMEq'");
            if ((scen == 62 || scen == 64) && rb.msg.find(variant % 2 ? "'/Z'" : "'-Z'") == std::string::npos) violate("offender-unnamed", label + ": " + rb.msg);
            if ((scen >= 66 && scen <= 68) && rb.msg.find("qNAMEq") == std::string::npos) violate("offender-unnamed", label + ": " + rb.msg);
            if (scen == 60 && rb.msg.find("--") != std::string::npos) violate("offender-unnamed", label + ": " + rb.msg);
            if (scen == 55 && rb.msg.find(variant % 5 == 2 ? "'/Z'" : "'-Z'") == std::string::npos) violate("offender-unnamed", label + ": " + rb.msg);
            if (scen == 23 && (rb.msg.find(variant % 2 ? "'qNAMEqzz*'" : "'qNAMEq!!*'") == std::string::npos || rb.msg.find("'qNAMEq*'") == std::string::npos)) violate("offender-unnamed", label + ": " + rb.msg);
            want = rb; want.msg = replace_all(rb.msg, by); want.opt = replace_all(rb.opt, by); want.tokens = replace_all(rb.tokens, by);
            for (auto& x : want.alt) x = replace_all(x, by);
            cur = ph; have = true; oomed = false;
            check("first reading", rh);
        } else if (!have) continue;
        else if (l.op == "oom") {
            with([&](const std::exception& e) {
                std::string m; u64 injected;
                {
                    Oom o((u64)std::max(0L, l.num(0)), (u64)std::max(0L, l.num(1)), (size_t)std::max(0L, l.num(2)));
                    const char* c = lib([&] { return e.what(); });
                    o.off(); injected = mem.failed;
                    if (!c) violate("empty-message", label + " without memory: null");
                    m = c;
                }
                tally("fault.allocation", injected); if (injected) oomed = true;
                ev(label + " without memory " + N((long long)injected) + ": " + hex(hash_str(m)));
                if (m.empty()) violate("empty-message", label + " without memory");
                if (!injected && m != want.msg) violate("message-wrong", label + " asked again: '" + m.substr(0, 300) + "' instead of '" + want.msg.substr(0, 300) + "'");
            });
        } else if (l.op == "copy") {
            with([&](const std::exception& e) { std::unique_ptr<std::exception> c; if (!copy_of(e, c)) violate("unknown-error-type", typeid(e).name()); check("original", describe(e)); check("copy", describe(*c)); check("original again", describe(e)); copy.swap(c); });
        } else if (l.op == "rethrow") {
            copy.reset();
            try { std::rethrow_exception(cur); } catch (const po::error& e) { check("rethrown", describe(e)); } catch (std::exception& e) { violate("unknown-error-type", typeid(e).name()); }
        } else if (l.op == "read") with([&](const std::exception& e) { check("read", describe(e)); });
    }
    if (have) with([&](const std::exception& e) { check("last reading", describe(e)); });
}
const Property sim::PROPERTY = {"C12", generate, execute};
