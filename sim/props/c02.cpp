// C02: a configuration file that cannot be read in full is never accepted.
#include "cfgrun.hpp"
#include "cvt.hpp"
#include "files_impl.hpp"
using namespace sim;
static const int ERRS[] = {EIO, ESTALE, EISDIR, EBADF, EAGAIN, ENOMEM, EINVAL, ETIMEDOUT};
static const int OERRS[] = {ENOENT, EACCES, EMFILE, ENFILE, ENOMEM, EINTR, ELOOP, EIO};
static Plan generate(Rng& r, int tier) {
    Plan p;
    auto names = gen_names(r);
    while (overlapping(names)) names.pop_back();
    for (auto& n : names) p.add("opt", {n});
    if (r.chance(1, 4)) p.add("allow", {"1"});
    bool wide = r.chance(1, 2);
    if (wide) p.add("wide", {"1"});
    auto lines = gen_ini(r, names, r.chance(1, 2), r.chance(1, 3) ? 500 : 20, r.chance(1, 4));
    size_t total = 0;
    std::vector<size_t> ends;
    for (auto& l : lines) { p.add("text", {l}); total += l.size(); ends.push_back(total); }
    if (r.chance(1, 8)) { // undecodable in wide mode
        static const char* bad[] = {"\xff", "\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80"};
        p.add("badchar", {N((long long)(r.chance(1, 2) ? r.below(total + 1) : total)), bad[r.below(6)]});
    }
    int what = r.range(0, 9);
    if (what == 0) p.add("open", {N(OERRS[r.below(8)])});
    else if (what == 1) p.add("special", {N(r.range(0, 3))});
    else {
        if (what < 8) {
            size_t at = r.chance(1, 2) ? ends[r.below(ends.size())] : r.below(total + 1);
            if (r.chance(1, 5)) at = (at / 8191) * 8191; // where the stream buffer refills
            if (r.chance(1, 8)) at = total;
            if (r.chance(1, 10)) at = 0;
            p.add("read", {N((long long)at), N(ERRS[r.below(8)])});
        }
        if (r.chance(1, 3)) p.add("eintr", {N((long long)r.below(total + 1)), N(r.range(1, 5))});
        if (r.chance(1, 2)) { std::vector<std::string> s; int n = r.range(1, 5); for (int i = 0; i < n; ++i) s.push_back(N(1 + (long long)r.loguniform(r.chance(1, 3) ? 8 : 5000))); p.add("sizes", s); }
        if (r.chance(1, 10)) p.add("close", {N(EIO)});
    }
    if (wide && r.chance(1, 2)) { std::vector<std::string> s; int n = r.range(1, 4); for (int i = 0; i < n; ++i) s.push_back(N(r.range(1, 50))); p.add("cvt", s); }
    (void)tier;
    return p;
}
template<class C> static CfgOutcome by_name(const std::string& path, const po::options_description& d, bool allow, bool& reading) {
    CfgOutcome o; o.kind = 0; o.bad = o.fail = o.eof = false; reading = false;
    try {
        po::basic_parsed_options<C> r = lib([&] { return po::parse_config_file<C>(path.c_str(), d, allow); });
        if (r.description != &d) violate("description", "parsed options refer to another description");
        for (auto& x : r.options) {
            Setting s; s.name = x.string_key; s.unreg = x.unregistered;
            if (x.value.size() != 1) violate("setting-shape", "setting '" + x.string_key + "' has " + N((long long)x.value.size()) + " values");
            s.value = to_n(x.value[0]);
            o.s.push_back(s);
        }
    }
    catch (po::unknown_option& e) { o.kind = 1; o.what = e.what(); o.name = e.get_option_name(); }
    catch (po::invalid_config_file_syntax& e) { o.kind = 2; o.what = e.what(); o.name = e.tokens(); }
    catch (po::reading_file& e) { o.kind = 3; reading = true; o.what = e.what(); }
    catch (std::exception& e) { o.kind = 5; o.what = e.what(); }
    catch (...) { o.kind = 5; o.what = "unknown exception"; }
    return o;
}
template<class C> static void go(const Plan& p, const std::vector<std::string>& names) {
    bool allow = p.num("allow") != 0;
    bool wide = sizeof(C) > 1;
    std::string text = plan_text(p, "text");
    if (const Line* b = p.find("badchar")) { size_t o = (size_t)std::max(0L, b->num(0)); if (o > text.size()) o = text.size(); text.insert(o, b->arg(1)); tally("fault.undecodable"); }
    size_t decodable = text.size();
    if (wide) { size_t i = 0; uint32_t c; while (i < text.size()) { int k = Enc::get(0, text.data() + i, text.data() + text.size(), c); if (k <= 0) { decodable = i; break; } i += k; } }
    po::options_description d("all");
    build_desc(d, names);
    static CvtScript sc;
    sc.steps = plan_nums(p, "cvt");
    install(&sc);
    std::string path = make_file(text);
    FileFaults ff;
    ff.open_err = (int)p.num("open");
    std::string given = path;
    long special = p.has("special") ? p.num("special") : -1;
    if (special == 0) given = "/nonexistent/%value%/simulated.cfg";
    if (special == 1) given = "/"; // a directory
    if (special == 2) given = "";
    if (special == 3) given = "/proc/self/fd/9999";
    if (const Line* l = p.find("read")) { ReadFault f = { l->num(0), (int)l->num(1), 1, false }; if (f.err <= 0 || f.err > 130 || f.err == EINTR) f.err = EIO; ff.reads.push_back(f); }
    if (const Line* l = p.find("eintr")) { ReadFault f = { l->num(0), EINTR, (int)l->num(1), false }; ff.reads.push_back(f); }
    ff.sizes = plan_nums(p, "sizes");
    ff.close_err = (int)p.num("close");
    int fds = open_fds();
    files = &ff;
    bool reading;
    CfgOutcome o = by_name<C>(given, d, allow, reading);
    files = 0;
    log_outcome("by name", o);
    if (open_fds() != fds) violate("descriptor-leak", "open descriptors " + N(fds) + " before, " + N(open_fds()) + " after");
    nontrivial();
    bool cannot_open = ff.open_fired || special >= 0;
    bool failed = cannot_open || ff.read_error_fired || decodable < text.size();
    ev(std::string("failed ") + N(cannot_open) + N(ff.read_error_fired) + N(decodable < text.size()) + " at " + N(ff.fired_off));
    size_t upto = decodable;
    if (ff.read_error_fired) upto = std::min(upto, (size_t)std::max(0L, ff.fired_off));
    if (cannot_open) upto = 0;
    Ini part = ini_model(text.substr(0, upto), names, allow, true);
    state(mix(mix(cannot_open, ff.read_error_fired), mix(part.err, std::min<size_t>(part.s.size(), 8)) ^ (wide + 2 * (o.kind))));
    bool tail = false;
    if (wide && !cannot_open && !ff.read_error_fired && decodable < text.size() && ff.eof_seen && !reading) {
        // libstdc++ takes undecodable bytes in the last block of a file for its end
        Ini t = ini_model(text.substr(0, decodable), names, allow);
        if (diff_complete(o, t).first.empty()) {
            tail = !(part.err && o.kind == part.err);
            if (tail) known_or_violate("partial-file-accepted", "undecodable-tail", "undecodable bytes at " + N((long long)decodable) + " taken for the end of the file: kind " + N(o.kind) + " " + show(o.s));
        }
    }
    if (tail) {}
    else if (failed) {
        if (o.kind == 0) violate("partial-file-accepted", "the file could not be read in full but the call returned " + show(o.s));
        if (part.err == 0 && !reading) violate("wrong-error", "expected the file-reading error, got kind " + N(o.kind) + " " + o.what);
        if (reading && o.what.find(given) == std::string::npos) violate("error-unnamed", "file-reading error '" + o.what + "' does not name '" + given + "'");
        if (part.err && !reading) check_complete("by name", o, part);
        tally(cannot_open ? "open failed" : ff.read_error_fired ? "read failed" : "undecodable");
    } else {
        Ini m = ini_model(text, names, allow);
        check_complete("by name", o, m);
        tally("read in full");
    }
    // and again without faults: nothing of the failure remains
    if (decodable == text.size()) {
        Ini m = ini_model(text, names, allow);
        CfgOutcome o2 = by_name<C>(path, d, allow, reading);
        log_outcome("again", o2);
        check_complete("again", o2, m);
        if (open_fds() != fds) violate("descriptor-leak", "healthy parse leaks a descriptor");
    }
}
static void execute(const Plan& p) {
    auto names = plan_names(p);
    if (overlapping(names)) return;
    step_limit = 50000000;
    if (p.num("wide")) go<wchar_t>(p, names); else go<char>(p, names);
}
const Property sim::PROPERTY = {"C02", generate, execute};
