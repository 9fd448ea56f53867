// C10: help written to a failing stream is a clean prefix, and printing changes nothing.
#include "streams.hpp"
#include <boost/program_options.hpp>
#include <memory>
#include <sstream>
namespace po = boost::program_options;
using namespace sim;

static std::string gen_desc(Rng& r, int k) {
    if (r.chance(1, 10)) return "";
    std::string s; int n = r.chance(1, 6) ? r.range(10, 60) : r.range(1, 12);
    static const char* w[] = {"the", "of", "option", "sets", "a", "level.", "(see", "below)", "\xc3\xa9t\xc3\xa9", "x", "averyveryverylongwordthatmaybetoolongforalinesomewhere", "100%", "--flag", "=", "and/or"};
    for (int i = 0; i < n; ++i) {
        if (i) s += r.chance(1, 12) ? (r.chance(1, 2) ? "\n" : "\n\n") : r.chance(1, 20) ? "  " : " ";
        s += r.chance(1, 3) ? "w" + N(k) + "." + N(i) : w[r.below(15)];
    }
    if (r.chance(1, 8)) s = "ab:\t" + s.substr(0, s.find('\n'));
    else if (r.chance(1, 10) && !s.empty()) s.insert(r.below(s.size()), 1, '\t'); // anywhere, also past the end of the line
    return s;
}
static void sub(Rng& r, Plan& p, int& k) {
    p.add("sub", {r.chance(1, 5) ? "" : r.chance(1, 4) ? "Caption" : r.chance(1, 10) ? "Allowed options" : "Caption " + N(k++), N(r.chance(1, 6) ? r.range(-40, -1) : r.range(0, 30))});
}
static void gen_table(Rng& r, Plan& p, int depth, int& k, int tier) {
    int n = r.chance(1, 12) ? r.range(10, tier ? 80 : 40) : r.range(0, 5);
    for (int i = 0; i < n; ++i) {
        std::string nm = (r.chance(1, 10) ? std::string((size_t)r.range(20, 50), 'n') : std::string("n")) + N(k) + "x";
        p.add("opt", {nm, r.chance(1, 3) ? std::string(1, (char)("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[k % 52])) : "", N(r.range(0, 7)), gen_desc(r, k), r.chance(1, 10) ? "1" : "0"});
        ++k;
        if (depth && r.chance(1, 5)) {
            sub(r, p, k);
            gen_table(r, p, depth - 1, k, tier);
            p.add("end");
        }
    }
    int m = depth ? r.range(0, 2) : 0;
    for (int i = 0; i < m; ++i) {
        sub(r, p, k);
        gen_table(r, p, depth - 1, k, tier);
        p.add("end");
    }
}
static Plan generate(Rng& r, int tier) {
    Plan p; int k = 0;
    int ll = r.chance(1, 2) ? 80 : r.range(30, 140);
    p.add("table", {r.chance(1, 6) ? "" : "Allowed options", N(ll), N(r.chance(1, 2) ? ll / 2 : r.range(ll / 4, ll - 10)), r.chance(1, 8) ? N(r.range(5, ll / 4)) : "0"});
    gen_table(r, p, r.range(0, 3), k, tier);
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        int kind = r.range(0, 3);
        p.add("print", {N(r.chance(1, 3) ? 0 : r.loguniform(300)), N(r.chance(1, 6) ? (long)r.loguniform(40) : 0), N(kind), N(kind ? (r.chance(1, 2) ? (long)r.loguniform(3000) : r.range(0, 400)) : 0), N(r.chance(1, 2) ? 0 : r.range(1, 7)), N(r.range(0, 3)), N(r.chance(1, 4) ? 1 + (long)(r.chance(1, 2) ? r.loguniform(600) : r.range(0, 60)) : 0), N(r.chance(1, 3) ? 0 : r.range(1, 4))});
    }
    return p;
}
struct Node {
    std::unique_ptr<po::options_description> d;
    std::string cap;
    std::vector<std::string> own, names, shorts; // expected text of own options without blanks, in order
    std::vector<std::unique_ptr<Node> > sub;
};
static std::string squeeze(const std::string& s) { std::string r; for (char c : s) if (c != ' ' && c != '\n' && c != '\t') r += c; return r; }
static void expected(const Node& n, std::string& out) {
    if (!n.cap.empty()) out += squeeze(n.cap) + ":";
    for (auto& o : n.own) out += o;
    for (auto& s : n.sub) expected(*s, out);
}
static void all_names(const Node& n, std::vector<std::string>& v) { v.insert(v.end(), n.names.begin(), n.names.end()); for (auto& s : n.sub) all_names(*s, v); }
static bool good_caption(const std::string& s) { return s.find('\0') == std::string::npos; }

static void execute(const Plan& p) {
    step_limit = 500000000;
    long ll = 80, md = 40, width = 0;
    std::string cap;
    if (const Line* t = p.find("table")) { cap = good_caption(t->arg(0)) ? t->arg(0) : ""; ll = t->num(1, 80); md = t->num(2, 40); width = t->num(3); }
    if (ll < 30) ll = 30;
    if (ll > 400) ll = 400;
    if (md < ll / 4) md = ll / 4;
    if (md > ll - 10) md = ll - 10;
    if (width < 0 || width > ll / 4) width = 0;
    Node root; root.cap = cap; root.d.reset(new po::options_description(cap, (unsigned)ll, (unsigned)md));
    std::vector<Node*> st; st.push_back(&root);
    std::set<std::string> used; std::set<char> ush;
    auto close = [&] { Node* n = st.back(); st.pop_back(); lib([&] { st.back()->d->add(*n->d); return 0; }); };
    for (auto& l : p.lines) {
        if (l.op == "opt") {
            std::string nm = l.arg(0); bool ok = !nm.empty() && used.insert(nm).second;
            for (char c : nm) if (!((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'))) ok = false;
            if (!ok) continue;
            char sh = l.arg(1).empty() ? 0 : l.arg(1)[0];
            if (sh && (!isalpha((unsigned char)sh) || !ush.insert(sh).second)) sh = 0;
            std::string desc = l.arg(3).c_str();
            // one tab per paragraph
            { std::string q; bool seen = false; for (char c : desc) { if (c == '\n') seen = false; if (c == '\t' && seen) c = '_'; if (c == '\t') seen = true; q += c; } desc = q; }
            bool shortonly = l.num(4) && sh;
            std::string spec = shortonly ? std::string(",") + sh : nm + (sh ? std::string(",") + sh : "");
            std::string txt = shortonly ? std::string("-") + sh : sh ? std::string("-") + sh + "[--" + nm + "]" : "--" + nm;
            std::string par;
            po::options_description& d = *st.back()->d;
            lib([&] {
                switch ((unsigned long)l.num(2) % 8) {
                case 0: d.add_options()(spec.c_str(), desc.c_str()); break;
                case 1: d.add_options()(spec.c_str(), po::value<int>(), desc.c_str()); break;
                case 2: d.add_options()(spec.c_str(), po::value<std::string>()->default_value("D" + nm), desc.c_str()); break;
                case 3: d.add_options()(spec.c_str(), po::value<int>()->implicit_value(3, "I" + nm), desc.c_str()); break;
                case 4: d.add_options()(spec.c_str(), po::bool_switch(), desc.c_str()); break;
                case 5: d.add_options()(spec.c_str(), po::value<std::vector<int> >()->multitoken()->composing(), desc.c_str()); break;
                case 6: d.add_options()(spec.c_str(), po::value<int>()->value_name("P" + nm)->default_value(5), desc.c_str()); break;
                default: d.add_options()(spec.c_str(), po::value<int>()->implicit_value(3, "I" + nm)->default_value(4, "D" + nm), desc.c_str()); break;
                }
                return 0;
            });
            switch ((unsigned long)l.num(2) % 8) {
            case 0: case 4: break;
            case 1: case 5: par = "arg"; break;
            case 2: par = "arg(=D" + nm + ")"; break;
            case 3: par = "[=arg(=I" + nm + ")]"; break;
            case 6: par = "P" + nm + "(=5)"; break;
            default: par = "[=arg(=I" + nm + ")](=D" + nm + ")";
            }
            st.back()->own.push_back(squeeze(txt + par + desc));
            st.back()->names.push_back(shortonly ? std::string("-") + sh : nm);
        }
        else if (l.op == "sub" && st.size() < 6) {
            Node* n = new Node; n->cap = good_caption(l.arg(0)) ? l.arg(0) : "";
            long extra = l.num(1); if (extra < -100 || extra > 100) extra = 0;
            long sl = std::max(20L, ll + extra), sm = std::min(md, sl - 10);
            n->d.reset(n->cap.empty() ? new po::options_description((unsigned)sl, (unsigned)sm) : new po::options_description(n->cap, (unsigned)sl, (unsigned)sm));
            st.back()->sub.emplace_back(n); st.push_back(n);
        }
        else if (l.op == "end" && st.size() > 1) close();
    }
    while (st.size() > 1) close();
    const po::options_description& d = *root.d;
    auto print = [&](std::ostream& os, long how) { lib([&] { if (how == 1) d.print(os, (unsigned)width); else if (how == 2 && !width) os << po::options_description(d); else if (width) d.print(os, (unsigned)width); else os << d; return 0; }); };
    std::ostringstream ref; print(ref, 0);
    const std::string F = ref.str();
    ev("help " + N((long long)F.size()) + " " + hex(hash_str(F)));
    std::string want; expected(root, want);
    std::string got = squeeze(F);
    if (got != want) {
        size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
        violate("help-content", "help text at character " + N((long long)i) + " (blanks not counted): '" + got.substr(i, 60) + "' expected '" + want.substr(i, 60) + "'");
    }
    std::vector<std::string> names; all_names(root, names);
    int runs = 0;
    for (auto& l : p.lines) {
        if (l.op != "print") continue;
        ++runs;
        SinkBuf sb((size_t)std::min(100000L, std::max(0L, l.num(0))));
        sb.max_write = std::max(0L, l.num(1));
        sb.fail = (int)((unsigned long)l.num(2) % F_NKINDS);
        sb.fail_at = (size_t)std::max(0L, l.num(3));
        long mask = l.num(4) & 7;
        std::ostream os(&sb);
        os.exceptions((mask & 1 ? std::ios_base::badbit : std::ios_base::goodbit) | (mask & 2 ? std::ios_base::failbit : std::ios_base::goodbit) | (mask & 4 ? std::ios_base::eofbit : std::ios_base::goodbit));
        int how = (int)(l.num(5) & 3), res = 0;
        u64 lost = 0; // allocations that failed
        bool nomem = l.num(6) > 0, silent = false;
        try {
            if (nomem) { Oom o((u64)l.num(6) - 1, (u64)std::max(0L, l.num(7))); AtExit<std::function<void()> > x([&] { lost = mem.failed; }); print(os, how); silent = (os.rdstate() & os.exceptions()) != 0; lib([&] { os.flush(); return 0; }); }
            else { print(os, how); silent = (os.rdstate() & os.exceptions()) != 0; lib([&] { os.flush(); return 0; }); }
        }
        catch (std::bad_alloc&) { res = 4; }
        catch (std::ios_base::failure&) { res = 1; }
        catch (IoError&) { res = 2; }
        catch (IoFailure&) { res = 3; }
        catch (std::exception& e) { violate("wrong-error", e.what()); }
        if (silent) violate("failure-hidden", "the stream should throw for its state after printing, but printing returned");
        tally("prints"); if (lost) tally("fault.allocation", lost);
        if (res == 4 && !lost) violate("wrong-error", "bad_alloc although there was memory");
        if (sb.failed) tally("prints that failed");
        ev("print " + N(how) + " -> " + N(res) + " accepted " + N((long long)sb.got.size()) + " state " + N(os.rdstate()));
        state(mix(mix(sb.fail, mask), mix(res * 8 + os.rdstate(), std::min<size_t>(sb.got.size() * 8 / (F.size() + 1), 8))));
        if (F.compare(0, sb.got.size(), sb.got) != 0) {
            size_t i = 0; while (i < F.size() && i < sb.got.size() && F[i] == sb.got[i]) ++i;
            violate("not-a-prefix", "at byte " + N((long long)i) + " device has '" + sb.got.substr(i, 40) + "' full text '" + (i < F.size() ? F.substr(i, 40) : "") + "'");
        }
        if (sb.after_fail) violate("written-after-failure", N((long long)sb.after_fail) + " attempts");
        if (lost && !sb.failed) { // memory ran out: the text is complete, or the caller can tell
            if (os.good() && res == 0 && sb.got != F) violate("failure-hidden", "memory ran out, the stream is good, " + N((long long)sb.got.size()) + " of " + N((long long)F.size()) + " bytes written");
        } else if (sb.failed) {
            if (os.good() && res == 0) violate("failure-hidden", "the stream is good, " + N((long long)sb.got.size()) + " of " + N((long long)F.size()) + " bytes accepted");
            if (res == 0 && (mask & 1) && os.bad()) violate("failure-hidden", "no exception although asked for");
        } else {
            if (res) violate("wrong-error", "exception from a healthy device");
            if (!os.good() || sb.got != F) violate("incomplete", "healthy device: state " + N(os.rdstate()) + ", " + N((long long)sb.got.size()) + " of " + N((long long)F.size()) + " bytes");
        }
        if (!F.empty()) nontrivial();
        // nothing about the table has changed
        std::ostringstream again; print(again, 0);
        if (again.str() != F) violate("print-changes-table", "printing again gives " + N((long long)again.str().size()) + " bytes instead of " + N((long long)F.size()));
        if (d.options().size() != names.size()) violate("print-changes-table", "number of options");
        for (auto& n : names) {
            const po::option_description* o = lib([&] { return d.find_nothrow(n, false, false, false); });
            if (!o || o->key("") != n) violate("print-changes-table", "'" + n + "' is not found");
        }
        if (!names.empty()) { // and it still parses
            std::vector<std::string> a; const std::string& n = names[(size_t)runs * 7 % names.size()];
            a.push_back(n[0] == '-' ? n : "--" + n);
            if (d.find(n, false).semantic()->min_tokens()) a.push_back("1");
            po::parsed_options r = lib([&] { return po::command_line_parser(a).options(d).run(); });
            if (r.options.size() != 1 || r.options[0].string_key != n) violate("print-changes-table", "parsing '" + n + "'");
        }
    }
}
const Property sim::PROPERTY = {"C10", generate, execute};
