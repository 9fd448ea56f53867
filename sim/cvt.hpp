// Local-encoding seam: a codecvt facet with scripted step sizes and errors.
#ifndef SIM_CVT_HPP
#define SIM_CVT_HPP
#include "streams.hpp"
#include <locale>
#include <cwchar>
namespace sim {
// Encodings: 0 UTF-8; 1 "offset": one byte per character c+1 (c<0x7f), others as
// 0x80|hi 0x80|.. three bytes base 128 (up to 2^21); different bytes from UTF-8 on purpose;
// 2 "shift": one byte per character below 0x80 and, after a byte 14, for U+3000..U+307F; a byte 15
// shifts back; others four bytes as above. A shift byte belongs to the character behind it.
struct Enc {
    static int bank(uint32_t c) { return c < 0x80 && c != 14 && c != 15 ? 0 : c >= 0x3000 && c < 0x3080 && c != 0x3000 + 14 && c != 0x3000 + 15 ? 1 : -1; }
    static int len(int enc, uint32_t c, int st = 0) { // bytes for c, 0: not encodable
        if (enc == 2) { int b = bank(c); if (b >= 0) return b == st ? 1 : 2; return c <= 0x10FFFF ? 4 : 0; }
        if (enc == 0) return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? (c >= 0xD800 && c < 0xE000 ? 0 : 3) : c <= 0x10FFFF ? 4 : 0;
        if (c < 0x7f) return 1;
        return c <= 0x10FFFF ? 4 : 0;
    }
    static void put(int enc, uint32_t c, char* o, int* st = 0) {
        if (enc == 2 && bank(c) >= 0) { int b = bank(c); if (b != (st ? *st : 0)) { *o++ = (char)(b ? 14 : 15); if (st) *st = b; } *o = (char)(c & 127); return; }
        if (enc == 0) { std::string s; utf8_put(s, c); memcpy(o, s.data(), s.size()); return; }
        if (enc == 1 && c < 0x7f) { o[0] = (char)(c + 1); return; }
        o[0] = (char)0x80; o[1] = (char)(0x80 | (c >> 14 & 127)); o[2] = (char)(0x80 | (c >> 7 & 127)); o[3] = (char)(0x80 | (c & 127));
    }
    // >0: bytes used; 0: incomplete; -1: invalid
    static int get(int enc, const char* p, const char* e, uint32_t& c, int* st = 0) {
        unsigned char b = (unsigned char)*p;
        if (enc == 2 && b < 0x80) {
            int s = st ? *st : 0, n = 1;
            if (b == 14 || b == 15) { s = b == 14; if (++p == e) return 0; b = (unsigned char)*p; if (b >= 0x80 || b == 14 || b == 15) return -1; n = 2; }
            c = b + (s ? 0x3000u : 0u); if (st) *st = s;
            return n;
        }
        if (enc) {
            if (b < 0x80) { if (b == 0) return -1; c = b - 1u; return 1; }
            if (b != 0x80) return -1;
            c = 0;
            for (int i = 1; i < 4; ++i) { if (p + i == e) return 0; unsigned char x = (unsigned char)p[i]; if (x < 0x80) return -1; c = c << 7 | (x & 127); }
            return c <= 0x10FFFF && (enc == 2 || c >= 0x7f) ? 4 : -1;
        }
        int n = b < 0x80 ? 1 : b < 0xC2 ? -1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF5 ? 4 : -1;
        if (n < 0) return -1;
        c = n == 1 ? b : n == 2 ? b & 31 : n == 3 ? b & 15 : b & 7;
        for (int i = 1; i < n; ++i) {
            if (p + i == e) return 0;
            unsigned char x = (unsigned char)p[i];
            if ((x & 0xC0) != 0x80) return -1;
            c = c << 6 | (x & 63);
        }
        if ((n == 3 && (c < 0x800 || (c >= 0xD800 && c < 0xE000))) || (n == 4 && (c < 0x10000 || c > 0x10FFFF))) return -1;
        return n;
    }
};
// whole-text reference conversions; false if not convertible
inline bool enc_in(int enc, const std::string& s, std::wstring& w) {
    w.clear(); int st = 0;
    for (size_t i = 0; i < s.size();) { uint32_t c; int n = Enc::get(enc, s.data() + i, s.data() + s.size(), c, &st); if (n <= 0) return false; w += (wchar_t)c; i += n; }
    return true;
}
inline bool enc_out(int enc, const std::wstring& w, std::string& s) {
    s.clear(); int st = 0;
    for (wchar_t c : w) { int n = Enc::len(enc, (uint32_t)c, st); if (!n) return false; char b[4]; Enc::put(enc, (uint32_t)c, b, &st); s.append(b, n); }
    return true;
}
struct CvtScript {
    int enc;
    std::vector<long> steps; // cyclic: characters per call (<=0: no limit)
    long fail_after;         // error once this many characters were converted (-1: never)
    bool shy;                // says ok after a part as well
    bool once;               // the error happens once, then the converter is healthy again
    mutable size_t si; mutable long done; mutable u64 calls;
    CvtScript() : enc(0), shy(false), fail_after(-1), once(false), si(0), done(0), calls(0) {}
};
struct SimCvt : std::codecvt<wchar_t, char, std::mbstate_t> {
    CvtScript* sc;
    explicit SimCvt(CvtScript* s, size_t refs = 0) : std::codecvt<wchar_t, char, std::mbstate_t>(refs), sc(s) {}
    virtual CvtScript* S() const { return sc; }
protected:
    long step() const { ++S()->calls; if (S()->steps.empty()) return 1L << 40; long n = S()->steps[S()->si++ % S()->steps.size()]; if (n <= 0) return 1L << 40; sim::tally("fault.codecvt_step"); return n; }
    bool boom() const { if (S()->fail_after >= 0 && S()->done >= S()->fail_after) { sim::tally("fault.codecvt_error"); if (S()->once) S()->fail_after = -1; return true; } return false; }
    struct Shift { // the shift state lives in the caller's state object
        state_type& s; int v;
        Shift(state_type& s) : s(s) { memcpy(&v, &s, sizeof v); }
        ~Shift() { memcpy(&s, &v, sizeof v); }
    };
    result do_in(state_type& state, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const {
        Pause p;
        Shift sh(state);
        long n = step();
        fn = f; tn = t;
        while (fn < fe) {
            if (tn != te && n == 0 && S()->shy && fn + 1 < fe) return ok;
            if (tn == te || n-- == 0) return partial;
            if (boom()) return error;
            uint32_t c; int k = Enc::get(S()->enc, fn, fe, c, &sh.v);
            if (k < 0) return error;
            if (k == 0) return partial;
            *tn++ = (wchar_t)c; fn += k; ++S()->done;
        }
        return ok;
    }
    result do_out(state_type& state, const wchar_t* f, const wchar_t* fe, const wchar_t*& fn, char* t, char* te, char*& tn) const {
        Pause p;
        Shift sh(state);
        long n = step();
        fn = f; tn = t;
        while (fn < fe) {
            if (n == 0 && S()->shy) return ok;
            if (n-- == 0) return partial;
            if (boom()) return error;
            int k = Enc::len(S()->enc, (uint32_t)*fn, sh.v);
            if (!k) return error;
            if (te - tn < k) return partial;
            Enc::put(S()->enc, (uint32_t)*fn, tn, &sh.v);
            tn += k; ++fn; ++S()->done;
        }
        return ok;
    }
    result do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return noconv; }
    int do_encoding() const throw() { return S()->enc == 2 ? -1 : 0; }
    bool do_always_noconv() const throw() { return false; }
    int do_length(state_type&, const char* f, const char* e, size_t max) const { const char* s = f; while (f < e && max--) { uint32_t c; int k = Enc::get(S()->enc, f, e, c); if (k <= 0) break; f += k; } return (int)(f - s); }
    int do_max_length() const throw() { return 4; }
};
inline void install(CvtScript* sc) { std::locale::global(std::locale(std::locale::classic(), new SimCvt(sc))); }
} // namespace sim
#endif
