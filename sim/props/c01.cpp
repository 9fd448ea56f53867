// C01: configuration text means the same however its characters are delivered.
#include "cfgrun.hpp"
using namespace sim;

static Plan generate(Rng& r, int tier) {
    Plan p;
    auto names = gen_names(r);
    for (auto& n : names) p.add("opt", {n});
    bool utf = r.chance(1, 2);
    bool allow = r.chance(1, 4);
    if (allow) p.add("allow", {"1"});
    if (r.chance(1, 2)) p.add("wide", {"1"});
    int ml = r.chance(1, 15) ? 400 : r.chance(1, 2) ? 6 : 30;
    for (auto& l : gen_ini(r, names, utf, tier ? ml * 2 : ml, !r.chance(1, 3), r.chance(1, allow ? 2 : 30))) p.add("text", {l});
    p.add("deliver", gen_chunks(r));
    if (r.chance(1, 3)) p.add("deliver2", gen_chunks(r));
    if (r.chance(1, 6)) p.add("group", {"1"});
    if (r.chance(1, 8)) p.add("mask", {N(r.range(1, 7))});
    return p;
}
static bool declared_ok(const std::vector<std::string>& names) {
    for (auto& n : names) if (n.empty()) return false;
    return true;
}
template<class C> static void go(const Plan& p, const std::vector<std::string>& names) {
    bool allow = p.num("allow") != 0;
    std::string text8 = plan_text(p, "text");
    std::basic_string<C> text = from_n<C>(text8);
    text8 = to_n(text);
    Ini m = ini_model(text8, names, allow);
    po::options_description d("all");
    if (p.num("group")) {
        po::options_description g("group");
        size_t h = names.size() / 2;
        build_desc(g, std::vector<std::string>(names.begin(), names.begin() + h));
        d.add(g);
        build_desc(d, std::vector<std::string>(names.begin() + h, names.end()));
    } else build_desc(d, names);
    ev("names " + N((long long)names.size()) + " text " + N((long long)text.size()) + " lines " + N((long long)m.lines) + " model " + N(m.err) + "/" + N((long long)m.s.size()));
    if (names.size() && text.size() > 3) nontrivial();
    bool over = overlapping(names);
    state(mix(mix(m.err, std::min<size_t>(m.s.size(), 9)), mix(sizeof(C) + allow * 8, over)));
    int pass = 0;
    for (const char* dl : {"deliver", "deliver2", "whole", "deliver"}) {
        bool whole = !strcmp(dl, "whole");
        if (!whole && pass && !p.has(dl)) continue;
        ++pass;
        SourceBuf<C> sb; sb.text = text;
        if (!whole) sb.chunks = plan_nums(p, dl);
        std::basic_istringstream<C> ss(text);
        std::basic_istream<C> is(&sb);
        std::basic_istream<C>& in = whole ? (std::basic_istream<C>&)ss : is;
        long mask = p.num("mask");
        std::ios_base::iostate ms = (mask & 1 ? std::ios_base::badbit : std::ios_base::goodbit) | (mask & 2 ? std::ios_base::failbit : std::ios_base::goodbit) | (mask & 4 ? std::ios_base::eofbit : std::ios_base::goodbit);
        in.exceptions(ms);
        CfgOutcome o = run_cfg(in, d, allow);
        log_outcome(dl, o);
        tally("parses");
        if (over) {
            // two wildcards for one name: an error of the table
            if (o.kind != 3) violate("overlap-accepted", "overlapping wildcards accepted, kind " + N(o.kind));
            continue;
        }
        if (o.kind == 4 && (mask & 6)) { tally("exception at end of input"); continue; } // what the caller asked the stream for
        check_complete(dl, o, m);
        tally(m.err == 0 ? "accepted" : m.err == 1 ? "unknown name reported" : "malformed line reported");
        if (o.bad) violate("stream-bad", "healthy stream left bad");
    }
    ev("steps " + N((long long)(steps / 100000)));
}
static void execute(const Plan& p) {
    auto names = plan_names(p);
    if (!declared_ok(names)) return;
    step_limit = 50000000;
    if (p.num("wide")) go<wchar_t>(p, names); else go<char>(p, names);
}
const Property sim::PROPERTY = {"C01", generate, execute};
