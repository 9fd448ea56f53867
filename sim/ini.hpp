// Executable reference model of configuration texts, independent of the library:
// text -> settings or the first error.
#ifndef SIM_INI_HPP
#define SIM_INI_HPP
#include "streams.hpp"
#include <algorithm>
namespace sim {
struct Setting { std::string name, value; bool unreg; };
struct Ini {
    std::vector<Setting> s;
    int err;              // 0 none, 1 unknown option, 2 malformed line
    std::string errtext;  // option name or line
    size_t lines;
};
inline std::string strip(const std::string& s) {
    size_t a = 0, b = s.size();
    auto blank = [](char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; };
    while (a < b && blank(s[a])) ++a;
    while (b > a && blank(s[b - 1])) --b;
    return s.substr(a, b - a);
}
// names: declared (a trailing '*' is a wildcard). Complete lines only if cut.
inline Ini ini_model(const std::string& text, const std::vector<std::string>& names, bool allow, bool cut = false) {
    Ini r; r.err = 0; r.lines = 0;
    std::string prefix;
    size_t i = 0;
    while (i < text.size()) {
        size_t e = text.find('\n', i);
        if (e == std::string::npos) { if (cut) break; e = text.size(); }
        std::string l = text.substr(i, e - i);
        i = e + 1; ++r.lines;
        size_t h = l.find('#');
        if (h != std::string::npos) l.erase(h);
        l = strip(l);
        if (l.empty()) continue;
        if (l.size() >= 2 && l[0] == '[' && l[l.size() - 1] == ']') {
            prefix = l.substr(1, l.size() - 2);
            if (prefix.empty() || prefix[prefix.size() - 1] != '.') prefix += '.';
            continue;
        }
        size_t q = l.find('=');
        if (q == std::string::npos) { r.err = 2; r.errtext = l; return r; }
        Setting s; s.name = prefix + strip(l.substr(0, q)); s.value = strip(l.substr(q + 1));
        bool reg = false;
        for (auto& n : names) {
            if (n == s.name) reg = true;
            if (!n.empty() && n[n.size() - 1] == '*') {
                std::string p = n.substr(0, n.size() - 1);
                if (s.name.compare(0, p.size(), p) == 0) reg = true;
            }
        }
        s.unreg = !reg;
        if (!reg && !allow) { r.err = 1; r.errtext = s.name; return r; }
        r.s.push_back(s);
    }
    return r;
}
// do two wildcards overlap? (an error when the table is used for a file)
inline bool overlapping(const std::vector<std::string>& names) {
    std::set<std::string> u(names.begin(), names.end());
    std::vector<std::string> p;
    for (auto& n : u) if (!n.empty() && n[n.size() - 1] == '*') p.push_back(n.substr(0, n.size() - 1));
    for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j)
        if (i != j && p[i].compare(0, p[j].size(), p[j]) == 0) return true;
    return false;
}
inline std::string strip_dashes(const std::string& s) { size_t i = s.find_first_not_of("-/"); return i == std::string::npos ? std::string() : s.substr(i); }

// ---- generator of configuration texts; each element is one line with terminator
struct IniGen {
    std::vector<std::string> names;
    std::vector<std::string> lines;
};
inline std::string gen_word(Rng& r) {
    static const std::vector<std::string> w = {"alpha", "b", "gui", "port", "x", "verbose", "net", "level", "a1", "log_file", "z-z", "colour", "UPPER", "gr\xc3\xb6\xc3\x9f" "e", "two words", "\xe2\x82\xac", "k:v", "an-option-with-quite-a-long-name"};
    return r.pick(w);
}
inline std::string gen_text(Rng& r, bool utf, size_t maxlen) {
    std::string s;
    size_t n = r.loguniform(maxlen);
    static const char plain[] = "abcxyz0189 .,;:=[]'\"\\/%$&*-_\t!";
    for (size_t i = 0; i < n; ++i) {
        if (utf && r.chance(1, 4)) {
            static const uint32_t cp[] = {0xE9, 0x7FF, 0x800, 0x20AC, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF, 0x80, 0x3B1, 0x85, 0xA0, 0xAD, 0x2028, 0x3000, 0xFEFF};
            utf8_put(s, cp[r.below(16)]);
        } else if (r.chance(1, 150)) s += r.chance(1, 2) ? '\r' : '\0';
        else if (r.chance(1, 100)) { static const char odd[] = "\v\f\b\a\x1a\x1b\x7f\x04"; s += odd[r.below(8)]; }
        else s += plain[r.below(sizeof plain - 1)];
    }
    return s;
}
inline std::string gen_blank(Rng& r) { static const char* b[] = {"", "", "", " ", "  ", "\t", " \t ", "   "}; return b[r.below(8)]; }
inline std::vector<std::string> gen_names(Rng& r) {
    std::vector<std::string> n;
    int k = r.range(1, 7);
    for (int i = 0; i < k; ++i) {
        std::string s = gen_word(r);
        while (r.chance(1, 3)) s += "." + gen_word(r);
        if (r.chance(1, 5)) { s += r.chance(1, 2) ? ".*" : "*"; if (r.chance(1, 12)) s = "*"; }
        n.push_back(s);
    }
    if (!r.chance(1, 25)) while (overlapping(n)) n.pop_back();
    return n;
}
inline std::vector<std::string> gen_ini(Rng& r, const std::vector<std::string>& names, bool utf, int maxlines, bool errors, bool exotic = false) {
    std::vector<std::string> out;
    int n = 1 + (int)r.loguniform((u64)maxlines);
    std::string sec; // current section without the dot
    int perr = errors ? 40 : 0;
    auto eol = [&] { return r.chance(1, 6) ? std::string("\r\n") : std::string("\n"); };
    for (int i = 0; i < n; ++i) {
        std::string l;
        int k = r.range(0, 19);
        if (perr && r.chance(1, (unsigned)perr)) {
            switch (r.range(0, 5)) {
            case 0: l = gen_word(r); break;
            case 1: l = "undeclared_" + gen_word(r) + "=1"; break;
            case 2: l = "[" + gen_word(r); break;
            case 3: l = gen_word(r) + "]"; break;
            case 4: l = "=" + gen_word(r); break;
            default: l = "nothing " + gen_text(r, utf, 20); break;
            }
            out.push_back(gen_blank(r) + l + gen_blank(r) + eol());
            continue;
        }
        if (k == 0) { out.push_back(gen_blank(r) + eol()); continue; }
        if (exotic && r.chance(1, 8)) { // anything that looks like a setting or a section
            std::string a = gen_text(r, utf, 14), b = gen_text(r, utf, 20);
            for (auto* x : {&a, &b}) for (auto& c : *x) if (c == '#') c = '=';
            if (r.chance(1, 3)) { out.push_back(gen_blank(r) + "[" + a + "]" + gen_blank(r) + eol()); sec = "?"; }
            else out.push_back(a + "=" + b + eol());
            continue;
        }
        if (k == 1) { out.push_back(gen_blank(r) + "#" + gen_text(r, utf, r.chance(1, 10) ? 3000 : 40) + eol()); continue; }
        // pick a declared name (or an expansion of a wildcard) and write it
        std::string name = names.empty() ? gen_word(r) : r.pick(names);
        if (!name.empty() && name[name.size() - 1] == '*') { name.erase(name.size() - 1); if (name.empty() || !r.chance(1, 8)) name += gen_word(r); if (r.chance(1, 3)) name += "." + gen_word(r); }
        bool dotted = name.find('.') != std::string::npos;
        std::string want; // section to use
        if (dotted && r.chance(1, 2)) { size_t d = r.chance(1, 2) ? name.find('.') : name.rfind('.'); want = name.substr(0, d); }
        // a plain name after a section header needs a way back: sections cannot be closed,
        // so either stay in the right section or leave the name qualified wrongly (error)
        if (!sec.empty()) {
            if (name.compare(0, sec.size() + 1, sec + ".") == 0 && r.chance(1, 2)) want = sec;
            else if (want.empty()) {
                if (dotted) want = name.substr(0, name.find('.'));
                else { // not reachable from inside a section: use one that is
                    std::vector<std::string> c;
                    for (auto& x : names) if (x.find('.') != std::string::npos && x[x.size() - 1] != '*') c.push_back(x);
                    if (c.empty()) { out.push_back(eol()); continue; }
                    name = r.pick(c); want = name.substr(0, name.find('.'));
                }
            }
        }
        if (!want.empty() && want != sec) {
            std::string h = gen_blank(r) + "[" + want + (r.chance(1, 5) ? "." : "") + "]" + gen_blank(r);
            if (r.chance(1, 8)) h += "# " + gen_text(r, utf, 20);
            out.push_back(h + eol());
            sec = want;
        }
        std::string shown = sec.empty() ? name : name.substr(std::min(name.size(), sec.size() + 1));
        std::string value = gen_text(r, utf, r.chance(1, 60) ? 5000 : r.chance(1, 6) ? 300 : 24);
        for (auto& c : value) if (c == '#') c = '.';
        if (r.chance(1, 10)) value = "[" + value + "]";
        l = gen_blank(r) + shown + gen_blank(r) + "=" + gen_blank(r) + value + gen_blank(r);
        if (r.chance(1, 8)) l += "#" + gen_text(r, utf, 30);
        out.push_back(l + eol());
    }
    if (!out.empty() && exotic && utf && r.chance(1, 4)) out[0] = "\xef\xbb\xbf" + out[0];
    if (!out.empty() && r.chance(1, 3)) { // last line without terminator
        std::string& l = out.back();
        while (!l.empty() && (l[l.size() - 1] == '\n' || l[l.size() - 1] == '\r')) l.erase(l.size() - 1);
    }
    return out;
}
inline std::vector<std::string> gen_chunks(Rng& r) {
    std::vector<std::string> c;
    switch (r.range(0, 5)) {
    case 0: break; // all at once
    case 1: c.push_back("1"); break;
    case 2: { int n = r.range(1, 12); for (int i = 0; i < n; ++i) c.push_back(N(r.range(0, 4))); break; }
    case 3: { int n = r.range(1, 8); for (int i = 0; i < n; ++i) c.push_back(N(r.range(1, 40))); break; }
    default: { int n = r.range(1, 6); for (int i = 0; i < n; ++i) c.push_back(N((long long)r.loguniform(2000))); break; }
    }
    return c;
}
} // namespace sim
#endif
