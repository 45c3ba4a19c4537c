// Seams between the code under test and its environment: file I/O (libc calls, as libstdc++'s fstream and
// std::filesystem make them) and the allocator (operator new). Everything passes through to the real
// implementation unless a fault plan is armed; only paths below the scratch prefix are affected.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace seam {

void set_scratch(const char* prefix);

// ---- disk ----
enum DiskErr { D_EIO, D_ENOSPC, D_SHORT, D_EINTR, D_EMFILE, D_NKINDS };
enum Ev { EV_OPEN_W, EV_WRITE, EV_RENAME, EV_UNLINK, EV_TRUNC, EV_CLOSE, EV_SYNC, EV_OPEN_R, EV_READ, EV_STAT, EV_N };
extern const char* const ev_name[EV_N];

// Crash: at the k-th mutating file event from now, apply only `frac`/65536 of it (a write is torn at that byte,
// any other event happens iff frac >= 32768) and nothing after it reaches the disk.
void arm_crash(long k, uint32_t frac);
void freeze();   // power off now
void thaw();     // machine is back; clears all plans
bool frozen();
// Error on the k-th write-side event; sticky: every later one fails too.
void arm_write_error(DiskErr e, long k, bool sticky);
void arm_read_error(DiskErr e, long k, bool sticky);
bool fault_fired(); // whether the armed plan has hit anything since arming
bool fault_fired_data(); // ... with an error other than a retryable one
void disarm();
long mutating_events(); // since last arm/thaw
long open_handles();
int last_event();

// ---- allocator ----
struct LibCall { // scope: code under test is running
    LibCall();
    ~LibCall();
};
bool in_lib(); // this thread is inside library code
void arm_alloc(long k, bool sticky); // k-th allocation inside library code from now fails
bool alloc_fired();
long allocs_seen();
void disarm_alloc();
void set_alloc_cap(size_t single, size_t total); // limits inside library code; exceeding throws bad_alloc and is recorded
bool alloc_cap_hit();
size_t alloc_peak();  // bytes obtained inside library code since reset
void reset_alloc_meter();
long live_lib_allocs();

// ---- statistics over the process ----
struct Counters {
    uint64_t fired_crash[EV_N];
    uint64_t fired_werr[D_NKINDS];
    uint64_t fired_rerr[D_NKINDS];
    uint64_t fired_on[EV_N];
    uint64_t fired_alloc_once, fired_alloc_sticky, capped;
    uint64_t ev[EV_N];
    uint64_t bytes_written;
};
extern Counters ctr;
} // namespace seam
