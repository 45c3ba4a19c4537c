#include "seam.h"
#include "par.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace seam {
const char* const ev_name[EV_N] = {"open-for-write", "write", "rename", "unlink", "truncate", "close", "sync", "open-for-read", "read", "stat"};
Counters ctr;

static char g_prefix[512];
static size_t g_prefix_len = 0;
void set_scratch(const char* p)
{
    snprintf(g_prefix, sizeof g_prefix, "%s", p);
    g_prefix_len = strlen(g_prefix);
}
static bool tracked_path(const char* p) { return g_prefix_len && p && strncmp(p, g_prefix, g_prefix_len) == 0; }

struct Fd {
    bool tracked, wr, ghost;
};
static Fd g_fd[4096];
static long g_open = 0;

static bool g_frozen = false;
static long g_events = 0; // mutating events since arm
static bool g_crash_armed = false;
static long g_crash_at = 0;
static uint32_t g_crash_frac = 0;
static bool g_werr_armed = false, g_rerr_armed = false;
static DiskErr g_err;
static long g_err_at = 0, g_err_seen = 0;
static bool g_sticky = false;
static bool g_fired = false, g_fired_data = false;
static int g_last_ev = -1;

void arm_crash(long k, uint32_t frac)
{
    disarm();
    g_crash_armed = true;
    g_crash_at = k;
    g_crash_frac = frac;
}
void freeze()
{
    g_frozen = true;
    g_crash_armed = false;
}
void thaw()
{
    g_frozen = false;
    disarm();
}
bool frozen() { return g_frozen; }
static void arm_err(DiskErr e, long k, bool sticky)
{
    disarm();
    g_err = e;
    g_err_at = k;
    g_sticky = sticky;
}
void arm_write_error(DiskErr e, long k, bool sticky)
{
    arm_err(e, k, sticky);
    g_werr_armed = true;
}
void arm_read_error(DiskErr e, long k, bool sticky)
{
    arm_err(e, k, sticky);
    g_rerr_armed = true;
}
bool fault_fired() { return g_fired; }
bool fault_fired_data() { return g_fired_data; }
void disarm()
{
    g_crash_armed = g_werr_armed = g_rerr_armed = false;
    g_events = g_err_seen = 0;
    g_fired = g_fired_data = false;
    g_last_ev = -1;
}
long mutating_events() { return g_events; }
long open_handles() { return g_open; }
int last_event() { return g_last_ev; }

static int errno_of(DiskErr e)
{
    switch (e) {
    case D_ENOSPC: return ENOSPC;
    case D_EINTR: return EINTR;
    case D_EMFILE: return EMFILE;
    default: return EIO;
    }
}

enum Act { PASS, SKIP /* pretend success */, FAIL /* errno set */, PARTIAL };

// Decide what happens to one event. For PARTIAL, *frac is the share that is applied.
static Act decide(Ev ev, uint32_t* frac)
{
    par::point();
    ctr.ev[ev]++;
    g_last_ev = ev;
    const bool mut = ev == EV_OPEN_W || ev == EV_WRITE || ev == EV_RENAME || ev == EV_UNLINK || ev == EV_TRUNC;
    const bool wside = mut || ev == EV_CLOSE || ev == EV_SYNC;
    if (g_frozen) return wside ? SKIP : PASS;
    if (mut) {
        long n = g_events++;
        if (g_crash_armed && n == g_crash_at) {
            g_crash_armed = false;
            g_frozen = true;
            g_fired = true;
            ctr.fired_crash[ev]++;
            if (ev == EV_WRITE) {
                *frac = g_crash_frac;
                return PARTIAL;
            }
            return g_crash_frac >= 32768 ? PASS : SKIP;
        }
    }
    bool armed = wside ? g_werr_armed : g_rerr_armed;
    if (armed) {
        const bool retryable = g_err == D_SHORT || g_err == D_EINTR;
        if (retryable && ev != EV_WRITE && ev != EV_READ) return PASS;
        if (g_err == D_EMFILE && ev != EV_OPEN_W && ev != EV_OPEN_R) return PASS;
        if (g_err == D_ENOSPC && !(ev == EV_WRITE || ev == EV_OPEN_W || ev == EV_RENAME || ev == EV_SYNC || ev == EV_CLOSE)) return PASS;
        long n = g_err_seen++;
        bool hit = n == g_err_at || (g_sticky && !retryable && n > g_err_at);
        if (hit) {
            g_fired = true;
            if (!retryable) g_fired_data = true;
            (wside ? ctr.fired_werr : ctr.fired_rerr)[g_err]++;
            ctr.fired_on[ev]++;
            if (g_err == D_SHORT) {
                *frac = 32768;
                return PARTIAL;
            }
            errno = errno_of(g_err);
            return FAIL;
        }
    }
    return PASS;
}

template <class T>
static T real(const char* name)
{
    return reinterpret_cast<T>(dlsym(RTLD_NEXT, name));
}

static void track(int fd, bool wr, bool ghost)
{
    if (fd < 0 || fd >= 4096) return;
    g_fd[fd] = Fd{true, wr, ghost};
    g_open++;
}
static bool is_tracked(int fd) { return fd >= 0 && fd < 4096 && g_fd[fd].tracked; }
static void untrack(int fd)
{
    if (is_tracked(fd)) {
        g_fd[fd].tracked = false;
        g_open--;
    }
}

static FILE* sim_fopen(const char* path, const char* mode, const char* which)
{
    using F = FILE* (*)(const char*, const char*);
    static F f1 = real<F>("fopen"), f2 = real<F>("fopen64");
    F f = which[5] ? f2 : f1;
    if (!tracked_path(path)) return f(path, mode);
    bool creates = mode[0] == 'w' || mode[0] == 'a';
    bool wr = creates || strchr(mode, '+');
    uint32_t frac = 0;
    Act a = decide(creates ? EV_OPEN_W : EV_OPEN_R, &frac);
    if (a == FAIL) return nullptr;
    bool ghost = a == SKIP;
    FILE* r = ghost ? f("/dev/null", "r+") : f(path, mode);
    if (r) track(fileno(r), wr, ghost);
    return r;
}

static int sim_open(const char* path, int flags, mode_t mode)
{
    if (!tracked_path(path)) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    bool creates = flags & (O_CREAT | O_TRUNC);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    uint32_t frac = 0;
    Act a = decide(creates ? EV_OPEN_W : EV_OPEN_R, &frac);
    if (a == FAIL) return -1;
    bool ghost = a == SKIP;
    int r = (int)(ghost ? syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0) : syscall(SYS_openat, AT_FDCWD, path, flags, mode));
    if (r >= 0) track(r, wr, ghost);
    return r;
}

static ssize_t sim_write_iov(int fd, const struct iovec* iov, int cnt)
{
    size_t total = 0;
    for (int i = 0; i < cnt; i++) total += iov[i].iov_len;
    if (!is_tracked(fd)) return syscall(SYS_writev, fd, iov, cnt);
    uint32_t frac = 0;
    Act a = decide(EV_WRITE, &frac);
    if (a == FAIL) return -1;
    if (a == SKIP || g_fd[fd].ghost) return (ssize_t)total;
    size_t want = total;
    if (a == PARTIAL) {
        want = (size_t)((unsigned long long)total * frac / 65536);
        if (!g_frozen && want == 0) want = total ? 1 : 0; // a short write makes progress
    }
    size_t left = want;
    for (int i = 0; i < cnt && left; i++) {
        size_t n = iov[i].iov_len < left ? iov[i].iov_len : left;
        size_t off = 0;
        while (off < n) {
            ssize_t r = syscall(SYS_write, fd, (const char*)iov[i].iov_base + off, n - off);
            if (r <= 0) return r;
            off += (size_t)r;
        }
        left -= n;
    }
    ctr.bytes_written += want;
    return (ssize_t)(g_frozen ? total : want);
}

static ssize_t sim_read(int fd, void* buf, size_t n)
{
    if (!is_tracked(fd)) return syscall(SYS_read, fd, buf, n);
    uint32_t frac = 0;
    Act a = decide(EV_READ, &frac);
    if (a == FAIL) return -1;
    if (a == PARTIAL && n > 1) n = n / 2 > 7 ? 7 : n / 2; // short read
    return syscall(SYS_read, fd, buf, n);
}
} // namespace seam

using namespace seam;

extern "C" {
FILE* fopen(const char* p, const char* m) { return sim_fopen(p, m, "fopen"); }
FILE* fopen64(const char* p, const char* m) { return sim_fopen(p, m, "fopen64"); }
int fclose(FILE* f)
{
    using F = int (*)(FILE*);
    static F r = real<F>("fclose");
    int fd = fileno(f);
    if (!is_tracked(fd)) return r(f);
    bool wr = g_fd[fd].wr;
    untrack(fd);
    uint32_t frac = 0;
    Act a = wr ? decide(EV_CLOSE, &frac) : PASS;
    int rc = r(f);
    if (a == FAIL) {
        errno = EIO;
        return EOF;
    }
    return rc;
}
int open(const char* p, int flags, ...)
{
    mode_t m = 0;
    if (flags & (O_CREAT | __O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    return sim_open(p, flags, m);
}
int open64(const char* p, int flags, ...)
{
    mode_t m = 0;
    if (flags & (O_CREAT | __O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    return sim_open(p, flags, m);
}
int creat(const char* p, mode_t m) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd)
{
    if (!is_tracked(fd)) return (int)syscall(SYS_close, fd);
    bool wr = g_fd[fd].wr;
    untrack(fd);
    uint32_t frac = 0;
    Act a = wr ? decide(EV_CLOSE, &frac) : PASS;
    int rc = (int)syscall(SYS_close, fd);
    if (a == FAIL) {
        errno = EIO;
        return -1;
    }
    return rc;
}
ssize_t write(int fd, const void* b, size_t n)
{
    if (!is_tracked(fd)) return syscall(SYS_write, fd, b, n);
    struct iovec v = {const_cast<void*>(b), n};
    return sim_write_iov(fd, &v, 1);
}
ssize_t writev(int fd, const struct iovec* v, int c) { return sim_write_iov(fd, v, c); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    if (!is_tracked(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    off_t save = lseek(fd, 0, SEEK_CUR);
    lseek(fd, o, SEEK_SET);
    ssize_t r = write(fd, b, n);
    int e = errno;
    lseek(fd, save, SEEK_SET);
    errno = e;
    return r;
}
ssize_t read(int fd, void* b, size_t n) { return sim_read(fd, b, n); }
int rename(const char* a, const char* b)
{
    if (tracked_path(a) || tracked_path(b)) {
        uint32_t frac = 0;
        Act x = decide(EV_RENAME, &frac);
        if (x == FAIL) return -1;
        if (x == SKIP) return 0;
    }
    return (int)syscall(SYS_rename, a, b);
}
int unlink(const char* p)
{
    if (tracked_path(p)) {
        uint32_t frac = 0;
        Act x = decide(EV_UNLINK, &frac);
        if (x == FAIL) return -1;
        if (x == SKIP) return 0;
    }
    return (int)syscall(SYS_unlink, p);
}
int remove(const char* p)
{
    if (tracked_path(p)) {
        uint32_t frac = 0;
        Act x = decide(EV_UNLINK, &frac);
        if (x == FAIL) return -1;
        if (x == SKIP) return 0;
    }
    int r = (int)syscall(SYS_unlink, p);
    if (r != 0 && errno == EISDIR) r = (int)syscall(SYS_rmdir, p);
    return r;
}
int truncate(const char* p, off_t n)
{
    if (tracked_path(p)) {
        uint32_t frac = 0;
        Act x = decide(EV_TRUNC, &frac);
        if (x == FAIL) return -1;
        if (x == SKIP) return 0;
    }
    return (int)syscall(SYS_truncate, p, n);
}
int ftruncate(int fd, off_t n)
{
    if (is_tracked(fd)) {
        uint32_t frac = 0;
        Act x = decide(EV_TRUNC, &frac);
        if (x == FAIL) return -1;
        if (x == SKIP || g_fd[fd].ghost) return 0;
    }
    return (int)syscall(SYS_ftruncate, fd, n);
}
int fsync(int fd)
{
    if (is_tracked(fd)) {
        uint32_t frac = 0;
        Act x = decide(EV_SYNC, &frac);
        if (x == FAIL) return -1;
        if (x == SKIP) return 0;
    }
    return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) { return fsync(fd); }
int stat(const char* p, struct stat* st)
{
    if (tracked_path(p)) {
        uint32_t frac = 0;
        if (decide(EV_STAT, &frac) == FAIL) return -1;
    }
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int access(const char* p, int m)
{
    if (tracked_path(p)) {
        uint32_t frac = 0;
        if (decide(EV_STAT, &frac) == FAIL) return -1;
    }
    return (int)syscall(SYS_faccessat, AT_FDCWD, p, m);
}
}

// ---------------------------------------------------------------- allocator
namespace seam {
struct Hdr {
    uint64_t tag; // 1: allocated inside library code
    uint64_t size;
};
static __thread int g_in_lib = 0;
static bool g_alloc_armed = false, g_alloc_sticky = false, g_alloc_fired = false, g_cap_hit = false;
static long g_alloc_at = 0, g_alloc_seen = 0, g_live_lib = 0;
static size_t g_cap_single = 0, g_cap_total = 0, g_meter = 0;

LibCall::LibCall() { g_in_lib++; }
LibCall::~LibCall() { g_in_lib--; }
bool in_lib() { return g_in_lib > 0; }
void arm_alloc(long k, bool sticky)
{
    g_alloc_armed = true;
    g_alloc_sticky = sticky;
    g_alloc_fired = false;
    g_alloc_at = k;
    g_alloc_seen = 0;
}
bool alloc_fired() { return g_alloc_fired; }
long allocs_seen() { return g_alloc_seen; }
void disarm_alloc()
{
    g_alloc_armed = false;
    g_alloc_seen = 0;
}
void set_alloc_cap(size_t s, size_t t)
{
    g_cap_single = s;
    g_cap_total = t;
    g_cap_hit = false;
    g_meter = 0;
}
bool alloc_cap_hit() { return g_cap_hit; }
size_t alloc_peak() { return g_meter; }
void reset_alloc_meter() { g_meter = 0; }
long live_lib_allocs() { return g_live_lib; }

static void* do_new(size_t n)
{
    if (g_in_lib) par::point();
    if (g_in_lib) {
        long k = g_alloc_seen++;
        g_meter += n;
        if ((g_cap_single && n > g_cap_single) || (g_cap_total && g_meter > g_cap_total) || n > (size_t(1) << 32)) {
            g_cap_hit = true;
            ctr.capped++;
            return nullptr;
        }
        if (g_alloc_armed && (k == g_alloc_at || (g_alloc_sticky && k > g_alloc_at))) {
            if (!g_alloc_fired) (g_alloc_sticky ? ctr.fired_alloc_sticky : ctr.fired_alloc_once)++;
            g_alloc_fired = true;
            return nullptr;
        }
    }
    Hdr* h = static_cast<Hdr*>(malloc(n + sizeof(Hdr)));
    if (!h) return nullptr;
    h->tag = g_in_lib ? 1 : 0;
    h->size = n;
    if (g_in_lib) g_live_lib++;
    return h + 1;
}
static void do_delete(void* p)
{
    if (!p) return;
    Hdr* h = static_cast<Hdr*>(p) - 1;
    if (h->tag == 1) g_live_lib--;
    h->tag = 2;
    free(h);
}
} // namespace seam

void* operator new(size_t n)
{
    void* p = seam::do_new(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n)
{
    void* p = seam::do_new(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return seam::do_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return seam::do_new(n); }
void operator delete(void* p) noexcept { seam::do_delete(p); }
void operator delete[](void* p) noexcept { seam::do_delete(p); }
void operator delete(void* p, size_t) noexcept { seam::do_delete(p); }
void operator delete[](void* p, size_t) noexcept { seam::do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { seam::do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { seam::do_delete(p); }
