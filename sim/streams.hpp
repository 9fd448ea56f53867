// Character delivery seams: scripted input and output stream buffers.
#ifndef SIM_STREAMS_HPP
#define SIM_STREAMS_HPP
#include "core.hpp"
#include <cstring>
#include <istream>
#include <ostream>
#include <streambuf>
#include <vector>

namespace sim {
// ---- UTF-8 helpers, independent of the library
inline void utf8_put(std::string& r, uint32_t c) {
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
}
// decodes one code point; false if malformed at i (then i advances by one byte)
inline bool utf8_get(const std::string& s, size_t& i, uint32_t& c) {
    unsigned char b = (unsigned char)s[i];
    int n = b < 0x80 ? 0 : b < 0xC2 ? -1 : b < 0xE0 ? 1 : b < 0xF0 ? 2 : b < 0xF5 ? 3 : -1;
    if (n < 0 || i + n >= s.size()) { if (n != 0) { ++i; return false; } }
    c = n == 0 ? b : n == 1 ? b & 31 : n == 2 ? b & 15 : b & 7;
    for (int k = 1; k <= n; ++k) {
        unsigned char x = (unsigned char)s[i + k];
        if ((x & 0xC0) != 0x80) { ++i; return false; }
        c = c << 6 | (x & 63);
    }
    if ((n == 2 && c < 0x800) || (n == 3 && c < 0x10000) || c > 0x10FFFF) { ++i; return false; }
    i += n + 1;
    return true;
}
inline std::wstring widen(const std::string& s) { // malformed bytes become '?'
    std::wstring w;
    for (size_t i = 0; i < s.size();) { uint32_t c; if (utf8_get(s, i, c)) w += (wchar_t)c; else w += L'?'; }
    return w;
}
inline std::string narrow(const std::wstring& w) { std::string s; for (wchar_t c : w) utf8_put(s, (uint32_t)c); return s; }
inline std::string to_n(const std::string& s) { return s; }
inline std::string to_n(const std::wstring& s) { return narrow(s); }
template<class C> std::basic_string<C> from_n(const std::string&);
template<> inline std::string from_n<char>(const std::string& s) { return s; }
template<> inline std::wstring from_n<wchar_t>(const std::string& s) { return widen(s); }

struct IoFailure { int code; }; // what a device driver's buffer throws: not a std::exception
struct IoError : std::runtime_error { IoError() : std::runtime_error("sim: device error") {} };

enum FailKind { F_NONE, F_THROW, F_THROW_ODD, F_BADSTATE, F_NKINDS };

// ---- input: hands over text in scripted chunks and may fail at a position
template<class C> struct SourceBuf : std::basic_streambuf<C> {
    typedef std::char_traits<C> T;
    std::basic_string<C> text;
    std::vector<long> chunks;      // cyclic chunk sizes; empty: everything at once
    size_t fail_at; int fail;      // fail when asked for the character at fail_at
    std::basic_ios<C>* ios;        // for F_BADSTATE
    size_t pos, ci; bool failed; u64 calls;
    std::vector<C> buf;
    SourceBuf() : fail_at((size_t)-1), fail(F_NONE), ios(0), pos(0), ci(0), failed(false), calls(0) {}
    typename T::int_type underflow() {
        Pause p;
        ++calls;
        if (this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
        if (fail != F_NONE && pos >= fail_at) {
            if (!failed) { ev("source fails at " + N((long long)pos)); sim::tally(fail == F_BADSTATE ? "fault.stream_bad_state" : fail == F_THROW ? "fault.stream_throw" : "fault.stream_throw_odd"); }
            failed = true;
            if (fail == F_THROW) throw IoError();
            if (fail == F_THROW_ODD) throw IoFailure{5};
            if (ios) ios->setstate(std::ios_base::badbit);
            return T::eof();
        }
        if (pos >= text.size()) return T::eof();
        size_t n = text.size() - pos;
        if (!chunks.empty()) { long c = chunks[ci++ % chunks.size()]; if (c < 1) { sim::tally("fault.stall"); c = 1; } if ((size_t)c < n) { n = (size_t)c; sim::tally("fault.short_read"); } }
        if (fail != F_NONE && pos + n > fail_at) n = fail_at - pos;
        buf.assign(text.begin() + pos, text.begin() + pos + n);
        pos += n;
        this->setg(&buf[0], &buf[0], &buf[0] + n);
        return T::to_int_type(buf[0]);
    }
};

// ---- output: records what it accepts and may fail at a position
struct SinkBuf : std::streambuf {
    std::string got;
    size_t fail_at; int fail;      // FailKind; F_BADSTATE here: short write / eof
    size_t bufsize;                // 0: unbuffered (overflow/xsputn directly)
    long max_write;                // accept at most this many characters per xsputn (0: no limit)
    bool failed; u64 after_fail;
    std::vector<char> buf;
    SinkBuf(size_t bs = 0) : fail_at((size_t)-1), fail(F_NONE), bufsize(bs), max_write(0), failed(false), after_fail(0), buf(bs ? bs : 1) { if (bs) setp(&buf[0], &buf[0] + bs); }
    bool push(char c) { // one character reaches the device
        if (failed) { ++after_fail; return false; }
        if (fail != F_NONE && got.size() >= fail_at) {
            failed = true;
            ev("sink fails at " + N((long long)got.size()));
            sim::tally(fail == F_THROW ? "fault.sink_throw" : fail == F_THROW_ODD ? "fault.sink_throw_odd" : "fault.sink_full");
            if (fail == F_THROW) throw IoError();
            if (fail == F_THROW_ODD) throw IoFailure{28};
            return false;
        }
        got += c;
        return true;
    }
    bool drain() {
        char* b = pbase(); char* e = pptr();
        size_t i = 0;
        struct G { SinkBuf* s; char* b; char* e; size_t& i; ~G() { // keep what was not accepted
            size_t left = (size_t)(e - b) - i; std::memmove(b, b + i, left); s->setp(b, b + s->bufsize); s->pbump((int)left); } } g = { this, b, e, i };
        if (failed) return false;
        for (; b + i < e; ++i) if (!push(b[i])) return false;
        return true;
    }
    int_type overflow(int_type c) {
        Pause p;
        if (bufsize) {
            if (!drain()) return traits_type::eof();
            if (c != traits_type::eof()) { *pptr() = (char)c; pbump(1); }
            return traits_type::not_eof(c);
        }
        if (c == traits_type::eof()) return traits_type::not_eof(c);
        return push((char)c) ? c : traits_type::eof();
    }
    std::streamsize xsputn(const char* s, std::streamsize n) {
        Pause p;
        if (bufsize) return std::streambuf::xsputn(s, n);
        std::streamsize i = 0;
        if (failed) { if (n > 0) ++after_fail; return 0; }
        for (; i < n; ++i) {
            if (max_write && i >= max_write) { if (!failed) ev("short write at " + N((long long)got.size())); failed = true; sim::tally("fault.short_write"); return i; }
            if (!push(s[i])) return i;
        }
        return i;
    }
    int sync() { Pause p; if (bufsize) return drain() ? 0 : -1; return 0; }
};
} // namespace sim
#endif
