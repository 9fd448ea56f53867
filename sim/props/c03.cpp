// C03: a failing stream yields only whole settings received before the failure.
#include "cfgrun.hpp"
using namespace sim;
static Plan generate(Rng& r, int tier) {
    Plan p;
    auto names = gen_names(r);
    while (overlapping(names)) names.pop_back();
    for (auto& n : names) p.add("opt", {n});
    if (r.chance(1, 4)) p.add("allow", {"1"});
    if (r.chance(1, 2)) p.add("wide", {"1"});
    auto lines = gen_ini(r, names, r.chance(1, 2), r.chance(1, 12) ? 200 : 12, r.chance(1, 4));
    size_t total = 0;
    std::vector<size_t> ends;
    for (auto& l : lines) { p.add("text", {l}); total += widen(l).size(); ends.push_back(total); }
    p.add("deliver", gen_chunks(r));
    size_t at;
    switch (r.range(0, 5)) {
    case 0: at = total; break;
    case 1: case 2: at = ends[r.below(ends.size())]; if (r.chance(1, 3) && at) --at; else if (r.chance(1, 3)) ++at; break; // around a line end
    default: at = r.below(total + 1);
    }
    p.add("fail", {N((long long)at), N(r.range(1, F_NKINDS - 1))});
    if (r.chance(1, 3)) p.add("mask", {N(r.range(1, 7))});
    if (r.chance(1, 20)) p.add("pre", {N(r.range(1, 3))});
    (void)tier;
    return p;
}
template<class C> static void go(const Plan& p, const std::vector<std::string>& names) {
    bool allow = p.num("allow") != 0;
    std::basic_string<C> text = from_n<C>(plan_text(p, "text"));
    po::options_description d("all");
    build_desc(d, names);
    const Line* f = p.find("fail");
    size_t at = f ? (size_t)std::max(0L, f->num(0)) : (size_t)-1;
    int kind = f ? (int)((u64)f->num(1) % F_NKINDS) : 0;
    long mask = p.num("mask"), pre = p.num("pre");
    std::ios_base::iostate ms = (mask & 1 ? std::ios_base::badbit : std::ios_base::goodbit) | (mask & 2 ? std::ios_base::failbit : std::ios_base::goodbit) | (mask & 4 ? std::ios_base::eofbit : std::ios_base::goodbit);
    Ini whole = ini_model(to_n(text), names, allow);
    {
        SourceBuf<C> sb; sb.text = text; sb.chunks = plan_nums(p, "deliver"); sb.fail_at = at; sb.fail = kind;
        std::basic_istream<C> in(&sb);
        sb.ios = &in;
        if (pre) in.setstate(pre == 1 ? std::ios_base::badbit : pre == 2 ? std::ios_base::failbit : std::ios_base::eofbit);
        else in.exceptions(ms);
        CfgOutcome o = run_cfg(in, d, allow);
        log_outcome("faulty", o);
        if (!pre) {
            if (in.exceptions() != ms) violate("exceptions-changed", "the stream's exception mask was " + N((long long)ms) + " and is now " + N((long long)in.exceptions()));
            if (o.kind == 0 && (in.rdstate() & ms)) violate("failure-hidden", "state " + N((long long)in.rdstate()) + " without the configured exception, mask " + N((long long)ms));
        }
        if (pre) {
            if (o.kind == 0 && !o.s.empty()) violate("settings-from-dead-stream", "stream unusable before the call, got " + show(o.s));
            if (pre == 1 && !in.bad()) violate("failure-hidden", "bad state cleared");
            tally("dead stream"); nontrivial();
        } else if (sb.failed) {
            nontrivial();
            Ini m = ini_model(to_n(text.substr(0, std::min(at, text.size()))), names, allow, true);
            state(mix(mix(m.err, std::min<size_t>(m.s.size(), 12)), mix(kind + 8 * mask, sizeof(C))));
            {
                if (o.kind == 4) {
                    if (!mask) violate("wrong-error", "stream exception although none was configured: " + o.what);
                    if (m.err) violate("wrong-error", "line '" + m.errtext + "' received in full before the failure, got " + o.what);
                    tally("failure thrown");
                } else {
                    check_complete("faulty", o, m);
                    if (o.kind == 0 && !o.bad) violate("failure-hidden", "source failed at " + N((long long)at) + " but the stream is not bad");
                    tally(o.kind ? "earlier line in error" : "failure visible in state");
                }
            }
            size_t le = to_n(text.substr(0, std::min(at, text.size()))).rfind('\n');
            if (at == text.size()) tally("failed at end"); else if (le != std::string::npos && le + 1 == to_n(text.substr(0, at)).size()) tally("failed at line start"); else tally("failed inside line");
        } else {
            // the failure was never met
            if (o.kind == 4) { if (!(mask & 6)) violate("wrong-error", "stream exception on a healthy stream"); }
            else check_complete("unmet", o, whole);
            tally("failure not met");
        }
    }
    { // a healthy stream afterwards
        std::basic_istringstream<C> in(text);
        CfgOutcome o = run_cfg(in, d, allow);
        log_outcome("healthy", o);
        check_complete("afterwards", o, whole);
    }
}
static void execute(const Plan& p) {
    auto names = plan_names(p);
    if (overlapping(names)) return;
    step_limit = 50000000;
    if (p.num("wide")) go<wchar_t>(p, names); else go<char>(p, names);
}
const Property sim::PROPERTY = {"C03", generate, execute};
