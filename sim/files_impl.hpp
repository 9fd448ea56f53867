// Included by exactly one TU of a simulator which simulates files.
#include "files.hpp"
#include <cerrno>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
namespace sim {
FileFaults* files = 0;
std::string make_file(const std::string& content) {
    int fd = memfd_create("simfile", 0);
    if (fd < 0) harness_error("memfd_create");
    size_t o = 0;
    while (o < content.size()) { ssize_t n = syscall(SYS_write, fd, content.data() + o, content.size() - o); if (n <= 0) harness_error("memfd write"); o += n; }
    return "/proc/self/fd/" + N(fd);
}
int open_fds() { int n = 0; for (int i = 0; i < 256; ++i) if (fcntl(i, F_GETFD) >= 0) ++n; return n; }
static bool active() { return files && tl.lib > 0; }
static ssize_t fault_read(int fd, size_t& n) { // <0: errno set, fail; 0: go on with n
    long off = (long)lseek(fd, 0, SEEK_CUR);
    for (auto& f : files->reads) {
        if (f.done || off < 0) continue;
        if (off >= f.off) {
            if (f.err == EINTR) { if (f.times-- > 0) { sim::tally("fault.read_eintr"); errno = EINTR; return -1; } f.done = true; continue; }
            if (!files->read_error_fired) { files->read_error_fired = true; files->fired_off = off; }
            sim::tally("fault.read_error"); errno = f.err;
            return -1;
        }
        if (off + (long)n > f.off) n = (size_t)(f.off - off); // stop short of the failing place
    }
    if (!files->sizes.empty()) { long s = files->sizes[files->si++ % files->sizes.size()]; if (s < 1) s = 1; if ((size_t)s < n) { n = (size_t)s; sim::tally("fault.read_short"); } }
    ++files->reads_done;
    return 0;
}
} // namespace sim
extern "C" {
ssize_t read(int fd, void* b, size_t n) {
    if (sim::active()) { sim::Pause p; if (sim::files && sim::fault_read(fd, n) < 0) return -1; }
    ssize_t r = syscall(SYS_read, fd, b, n);
    if (r == 0 && n && sim::active()) sim::files->eof_seen = true;
    return r;
}
static FILE* real_open(const char* nm, const char* path, const char* mode) {
    typedef FILE* (*F)(const char*, const char*);
    F f = (F)dlsym(RTLD_NEXT, nm);
    return f(path, mode);
}
static bool fault_open() {
    if (!sim::active() || !sim::files->open_err) return false;
    sim::files->open_fired = true; sim::tally("fault.open_error"); errno = sim::files->open_err;
    return true;
}
FILE* fopen(const char* path, const char* mode) { bool f = fault_open(); sim::Pause p; return f ? 0 : real_open("fopen", path, mode); }
FILE* fopen64(const char* path, const char* mode) { bool f = fault_open(); sim::Pause p; return f ? 0 : real_open("fopen64", path, mode); }
int fclose(FILE* f) {
    bool a = sim::active();
    sim::Pause p;
    typedef int (*F)(FILE*);
    int r = ((F)dlsym(RTLD_NEXT, "fclose"))(f);
    if (a && sim::files->close_err) { sim::files->close_fired = true; sim::tally("fault.close_error"); errno = sim::files->close_err; return EOF; }
    return r;
}
}
