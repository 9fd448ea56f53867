// File seam: the open/read/close calls below std::basic_filebuf. A "file" is a memfd
// reached through /proc/self/fd/N, so that it opens through any interface; faults are
// injected in the calls made while the library runs.
#ifndef SIM_FILES_HPP
#define SIM_FILES_HPP
#include "core.hpp"
namespace sim {
struct ReadFault { long off; int err; int times; bool done; }; // at file offset >= off: fail with err
struct FileFaults {
    int open_err; bool open_fired;
    std::vector<ReadFault> reads;
    std::vector<long> sizes; size_t si;   // cyclic limits of read sizes
    int close_err; bool close_fired;
    bool read_error_fired; long fired_off; // a read really failed
    u64 reads_done;
    bool eof_seen;                        // a read at the end of the file returned nothing
    bool nofault;
    FileFaults() : open_err(0), open_fired(false), si(0), close_err(0), close_fired(false), read_error_fired(false), fired_off(-1), reads_done(0), eof_seen(false), nofault(false) {}
};
extern FileFaults* files; // active faults or 0
std::string make_file(const std::string& content); // path
int open_fds();
} // namespace sim
#endif
