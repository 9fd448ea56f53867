// Shared by C01 and C03: parse a text from a scripted stream and compare with the model.
#ifndef SIM_CFGRUN_HPP
#define SIM_CFGRUN_HPP
#include "ini.hpp"
#include <boost/program_options.hpp>
#include <sstream>
namespace po = boost::program_options;
namespace sim {
struct CfgOutcome {
    int kind;              // 0 result, 1 unknown_option, 2 malformed line, 3 other po::error, 4 stream exception, 5 other
    std::string what, name;
    std::vector<Setting> s;
    bool bad, fail, eof;
};
inline void build_desc(po::options_description& d, const std::vector<std::string>& names) {
    int k = 0;
    for (auto& n : names) {
        if (n.empty() || n.find(',') != std::string::npos) continue;
        switch (k++ % 4) {
        case 0: d.add_options()(n.c_str(), po::value<std::string>(), "d"); break;
        case 1: d.add_options()(n.c_str(), po::value<int>()->default_value(7), "d"); break;
        case 2: d.add_options()(n.c_str(), "d"); break;
        default: d.add_options()(n.c_str(), po::value<std::vector<std::string> >()->composing(), "d"); break;
        }
    }
}
template<class C>
CfgOutcome run_cfg(std::basic_istream<C>& is, const po::options_description& d, bool allow) {
    CfgOutcome o; o.kind = 0; o.bad = false;
    auto fin = [&] { o.bad = is.bad(); o.fail = is.fail(); o.eof = is.eof(); };
    try {
        po::basic_parsed_options<C> r = lib([&] { return po::parse_config_file(is, d, allow); });
        fin();
        if (r.description != &d) violate("description", "parsed options refer to another description");
        for (auto& x : r.options) {
            Setting s; s.name = x.string_key; s.unreg = x.unregistered;
            if (x.value.size() != 1) violate("setting-shape", "setting '" + x.string_key + "' has " + N((long long)x.value.size()) + " values");
            s.value = to_n(x.value[0]);
            if (x.position_key != -1) violate("setting-shape", "setting '" + x.string_key + "' is positional");
            if (x.original_tokens.size() != 2 || to_n(x.original_tokens[0]) != s.name || to_n(x.original_tokens[1]) != s.value)
                violate("setting-shape", "original tokens of '" + x.string_key + "' are not its name and value");
            o.s.push_back(s);
        }
    }
    catch (po::unknown_option& e) { fin(); o.kind = 1; o.what = e.what(); o.name = e.get_option_name(); }
    catch (po::invalid_config_file_syntax& e) { fin(); o.kind = 2; o.what = e.what(); o.name = e.tokens(); }
    catch (po::error& e) { fin(); o.kind = 3; o.what = e.what(); }
    catch (std::ios_base::failure&) { fin(); o.kind = 4; o.what = "ios failure"; }
    catch (IoError&) { fin(); o.kind = 4; o.what = "device error"; }
    catch (IoFailure&) { fin(); o.kind = 4; o.what = "odd device error"; }
    catch (std::exception& e) { fin(); o.kind = 5; o.what = e.what(); }
    return o;
}
inline std::string show(const std::vector<Setting>& v) {
    std::string r;
    for (auto& s : v) r += "{" + s.name + "=" + (s.value.size() > 60 ? s.value.substr(0, 60) + "..(" + N((long long)s.value.size()) + ")" : s.value) + (s.unreg ? " unregistered" : "") + "}";
    return r.size() > 1200 ? r.substr(0, 1200) + "..." : r;
}
inline void log_outcome(const char* who, const CfgOutcome& o) {
    std::string all;
    for (auto& s : o.s) all += s.name + "=" + s.value + (s.unreg ? "?" : "") + "\n";
    ev(std::string(who) + " kind " + N(o.kind) + " bad " + N(o.bad) + " settings " + N((long long)o.s.size()) + " " + hex(hash_str(all)) + (o.kind ? " " + esc(o.what.substr(0, 200)) : ""));
}
// o is a complete answer: compare with the model; first = violation class or ""
typedef std::pair<std::string, std::string> Diff;
inline Diff diff_complete(const CfgOutcome& o, const Ini& m) {
    if (m.err == 0) {
        if (o.kind != 0) return Diff("rejected", "valid text rejected: " + o.what + "; expected " + show(m.s));
        if (o.s.size() != m.s.size()) return Diff("settings-differ", "got " + show(o.s) + " expected " + show(m.s));
        for (size_t i = 0; i < m.s.size(); ++i)
            if (o.s[i].name != m.s[i].name || o.s[i].value != m.s[i].value || o.s[i].unreg != m.s[i].unreg)
                return Diff("settings-differ", "at " + N((long long)i) + " got " + show(o.s) + " expected " + show(m.s));
        return Diff();
    }
    if (o.kind == 0) return Diff("error-missed", "'" + m.errtext + "' accepted, got " + show(o.s));
    if (o.kind != m.err) return Diff("wrong-error", "for '" + m.errtext + "' got kind " + N(o.kind) + " " + o.what);
    std::string want = m.err == 1 ? strip_dashes(m.errtext) : m.errtext;
    std::string shown = want.substr(0, want.find('\0')); // what() ends at a NUL
    if (m.err == 2 && o.what.find(shown) == std::string::npos) return Diff("error-unnamed", "message '" + o.what + "' does not show '" + want + "'");
    if (m.err == 1 && (o.name.find(want) == std::string::npos || o.what.find(shown) == std::string::npos)) return Diff("error-unnamed", "message '" + o.what + "' does not name '" + want + "'");
    return Diff();
}
inline void check_complete(const char* who, const CfgOutcome& o, const Ini& m) {
    Diff d = diff_complete(o, m);
    if (!d.first.empty()) violate(d.first, std::string(who) + ": " + d.second);
}
inline std::vector<std::string> plan_names(const Plan& p) { std::vector<std::string> n; for (auto& l : p.lines) if (l.op == "opt" && !l.arg(0).empty() && l.arg(0).find(',') == std::string::npos && l.arg(0).find('\0') == std::string::npos) n.push_back(l.arg(0)); return n; }
inline std::string plan_text(const Plan& p, const char* op) { std::string t; for (auto& l : p.lines) if (l.op == op) t += l.arg(0); return t; }
inline std::vector<long> plan_nums(const Plan& p, const char* op) { std::vector<long> v; if (const Line* l = p.find(op)) for (size_t i = 0; i < l->a.size(); ++i) v.push_back(l->num(i)); return v; }
} // namespace sim
#endif
