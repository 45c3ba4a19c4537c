#include "script.h"
#include "include/batchproof.h"
#include "include/pollard.h"
#include "include/ram_forest.h"
#include "model.h"
#include "par.h"
#include "seam.h"
#include <csignal>
#include <memory>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using ref::H;
using utreexo::BatchProof;
using utreexo::Leaf;
using utreexo::Pollard;
using utreexo::RamForest;
using utreexo::UndoBatch;

template <class F>
static auto lib(F&& f)
{
    seam::LibCall scope;
    return f();
}
static uint64_t digest(const void* p, size_t n)
{
    uint64_t x = 0xcbf29ce484222325ULL ^ n;
    for (size_t i = 0; i < n; i++) x = (x ^ static_cast<const uint8_t*>(p)[i]) * 0x100000001b3ULL;
    return x ^ (x >> 31);
}
template <class T>
static uint64_t digest(const std::vector<T>& v) { return digest(v.data(), v.size() * sizeof(T)); }

namespace {
struct Alive { // the objects of one life
    std::unique_ptr<RamForest> f;
    std::unique_ptr<Pollard> p;
    std::unique_ptr<BatchProof> bp, rx;
    std::unique_ptr<UndoBatch> u, ru;
    std::vector<H> roots;
    std::vector<uint8_t> bytes;
    void end()
    {
        lib([&] {
            f.reset(), p.reset(), bp.reset(), rx.reset(), u.reset(), ru.reset();
            std::vector<H>().swap(roots);
            std::vector<uint8_t>().swap(bytes);
            return 0;
        });
    }
};
} // namespace

// The c-th leaf, c = 1, 2, ... 1: all leaves start with the same eight bytes, 2: with one of two groups of eight bytes,
// 3: only the first eight bytes of leaves differ, 4 and 5: only the last eight do; with 3 and 5 the first leaf is all
// zeros and with 4 all ones.
H leaf_hash(uint64_t c, uint32_t collide)
{
    H h;
    if (collide >= 3) {
        h.fill(collide == 4 ? 0xff : 0);
        for (int i = 0; i < 8; i++) h[collide == 3 ? i : 31 - i] ^= (uint8_t)((c - 1) >> (8 * i));
        return h;
    }
    uint8_t in[16] = {'l', 'e', 'a', 'f'};
    memcpy(in + 8, &c, 8);
    h = ref::sha512_256(in, 16);
    if (collide) {
        memset(h.data(), 0x11, 8);
        if (collide == 2) h[0] = (uint8_t)(c & 1);
    }
    return h;
}

static void live_(const Life& l, const std::string& path, Notes& out, Alive& a)
{
    Rng r(l.seed);
    auto note = [&](const char* what, uint64_t v) { out.push_back(std::string(what) + " " + std::to_string(v)); };
    auto view = [&](const char* who, const utreexo::Accumulator& x) {
        uint64_t n = lib([&] { x.Roots(a.roots); return x.NumLeaves(); });
        out.push_back(std::string(who) + " has " + std::to_string(n) + " leaves, roots " + std::to_string(digest(a.roots)));
    };
    auto proof = [&](const char* who, bool ok, const BatchProof& p) {
        out.push_back(std::string(who) + (ok ? " proves " : " cannot prove ") + (ok ? std::to_string(digest(p.GetTargets())) + " " + std::to_string(digest(p.GetHashes())) : ""));
    };
    lib([&] {
        if (l.file) a.f = std::make_unique<RamForest>(path);
        else a.f = std::make_unique<RamForest>(uint64_t(0));
        a.p = std::make_unique<Pollard>(uint64_t(0));
        a.bp = std::make_unique<BatchProof>();
        a.rx = std::make_unique<BatchProof>();
        a.u = std::make_unique<UndoBatch>();
        a.ru = std::make_unique<UndoBatch>();
        return 0;
    });
    std::vector<H> lv; // the leaves, in their order
    uint64_t ctr = r.below(3);
    uint64_t rounds = 2 + r.below(4);
    for (uint64_t k = 0; k < rounds; k++) {
        // a block
        std::vector<uint64_t> del;
        std::vector<H> dels;
        uint64_t den = r.below(4);
        for (uint64_t i = 0; i < lv.size(); i++)
            if (den && r.chance(1, 1 + den)) del.push_back(i), dels.push_back(lv[i]);
        uint64_t room = l.maxleaves > lv.size() - del.size() ? l.maxleaves - (lv.size() - del.size()) : 0;
        std::vector<Leaf> add, add0;
        uint64_t na = std::min<uint64_t>(room, k == 0 ? 1 + r.below(l.maxleaves) : r.below(8));
        for (uint64_t i = 0; i < na; i++) {
            H h = leaf_hash(++ctr, l.collide);
            add.emplace_back(h, r.chance(1, 2));
            add0.emplace_back(h, false);
        }
        bool ok = lib([&] { return a.f->Prove(*a.bp, dels); });
        proof("forest", ok, *a.bp);
        lib([&] { a.bp->Serialize(a.bytes); return 0; });
        note("encoded proof", digest(a.bytes));
        if (!dels.empty() && r.chance(1, 3)) { // something wrong first
            std::vector<H> bad = dels;
            std::vector<H> bh = a.bp->GetHashes();
            if (!bh.empty() && r.chance(1, 2)) bh[r.below(bh.size())][r.below(32)] ^= 1;
            else
                bad[r.below(bad.size())][r.below(32)] ^= 1;
            bool v = lib([&] { BatchProof w(a.bp->GetTargets(), bh); return a.p->Verify(w, bad); });
            note("pollard on a wrong proof", v);
            if (r.chance(1, 2)) {
                v = lib([&] { BatchProof w(a.bp->GetTargets(), bh); return a.f->Verify(w, bad); });
                note("forest on a wrong proof", v);
            }
        }
        ok = lib([&] { return a.rx->Unserialize(a.bytes); });
        note("decoded proof", ok ? digest(a.rx->GetTargets()) ^ digest(a.rx->GetHashes()) : 0);
        note("proof in order", lib([&] { return a.rx->CheckSanity(a.p->NumLeaves()); }));
        ok = lib([&] { return a.p->Verify(*a.rx, dels); });
        note("pollard on a proof", ok);
        if (r.chance(1, 3)) note("forest on its proof", lib([&] { return a.f->Verify(*a.bp, dels); }));
        if (ok) note("pollard applies", lib([&] { return a.p->Modify(add, a.rx->GetSortedTargets()); }));
        if (r.chance(1, 4)) note("forest applies", lib([&] { return static_cast<utreexo::Accumulator&>(*a.f).Modify(add0, del); }));
        else {
            note("forest applies", lib([&] { return a.f->Modify(*a.u, add0, del); }));
            lib([&] { a.u->Serialize(a.bytes); return 0; });
            note("undo data", digest(a.bytes));
            if (r.chance(1, 3)) {
                note("decoded undo data", lib([&] { return a.ru->Unserialize(a.bytes); }));
                note("undone", lib([&] { return a.f->Undo(*a.ru); }));
                view("forest", *a.f);
                note("forest applies again", lib([&] { return a.f->Modify(*a.u, add0, del); }));
            }
        }
        lv = ref::remove(lv, del);
        for (auto& x : add0) lv.push_back(x.first);
        view("forest", *a.f);
        view("pollard", *a.p);
        note("nodes", lib([&] { return a.p->CountNodes(); }) * 1000 + lib([&] { return a.p->NumCachedLeaves(); }));
        note("positions agree", lib([&] { return a.f->ComparePositionMap(*a.p); }));
        if (!lv.empty()) {
            std::vector<H> want;
            for (auto& h : lv)
                if (r.chance(1, 2)) want.push_back(h);
            for (size_t i = want.size(); i > 1; i--) std::swap(want[i - 1], want[r.below(i)]);
            ok = lib([&] { return a.f->Prove(*a.bp, want); });
            proof("forest", ok, *a.bp);
            std::vector<H> one = {lv[r.below(lv.size())]};
            bool ok1 = lib([&] { return a.p->Prove(*a.rx, one); });
            proof("pollard", ok1, *a.rx);
            uint64_t i = r.below(lv.size());
            H h = lib([&] { return a.f->GetLeaf(i); });
            note("leaf", digest(h.data(), 32));
            if (r.chance(1, 3)) {
                note("pollard on a proof", lib([&] { return a.p->Verify(*a.bp, want); }));
                if (r.chance(1, 2)) lib([&] { a.p->Prune(); return 0; });
                view("pollard", *a.p);
            }
        }
        if (l.file && r.chance(1, 2)) note("saved", lib([&] { return a.f->Commit(); }));
        if (l.file && r.chance(1, 3)) {
            lib([&] { a.f.reset(); a.f = std::make_unique<RamForest>(path); return 0; });
            view("reopened forest", *a.f);
        }
        if (r.chance(1, 6)) { // a new pollard from the roots
            lib([&] { a.f->Roots(a.roots); a.p = std::make_unique<Pollard>(a.roots, a.f->NumLeaves()); return 0; });
            view("new pollard", *a.p);
        }
    }
    if (l.file) {
        lib([&] { a.f.reset(); a.f = std::make_unique<RamForest>(path); return 0; });
        view("reopened forest", *a.f);
    }
}

void live(const Life& l, const std::string& path, Notes& out)
{
    Alive a;
    try {
        live_(l, path, out, a);
    } catch (const std::exception& e) {
        out.push_back(std::string("exception: ") + e.what());
    }
    try {
        a.end();
    } catch (const std::exception& e) {
        out.push_back(std::string("exception at the end: ") + e.what());
    }
}

// ---------------------------------------------------------------- a process that has never used the library
static int z_in = -1, z_out = -1;
static pid_t z_owner = 0;
static bool full_read(int fd, void* p, size_t n)
{
    char* c = static_cast<char*>(p);
    while (n) {
        ssize_t k = ::read(fd, c, n);
        if (k <= 0) return false;
        c += k;
        n -= (size_t)k;
    }
    return true;
}
static bool full_write(int fd, const void* p, size_t n)
{
    const char* c = static_cast<const char*>(p);
    while (n) {
        ssize_t k = ::write(fd, c, n);
        if (k <= 0) return false;
        c += k;
        n -= (size_t)k;
    }
    return true;
}
struct Ask {
    Life l;
    char path[300];
};
static void zygote(int in, int out)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPIPE, SIG_IGN);
    struct itimerval off = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &off, nullptr);
    alarm(0);
    Ask q;
    while (full_read(in, &q, sizeof q)) {
        int fd[2];
        if (pipe(fd)) _exit(1);
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            ::close(fd[0]);
            struct itimerval v = {{0, 0}, {10, 0}};
            setitimer(ITIMER_PROF, &v, nullptr);
            Notes n;
            n.reserve(200);
            par::Plan plan;
            par::Report rep = par::run({[&] { live(q.l, q.path, n); }}, plan);
            std::string s;
            for (auto& x : n) s += x + "\n";
            full_write(fd[1], &rep.points, 8);
            full_write(fd[1], s.data(), s.size());
            _exit(0);
        }
        ::close(fd[1]);
        std::string s;
        char buf[4096];
        ssize_t k;
        while ((k = ::read(fd[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)k);
        ::close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        uint64_t len = WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.size() >= 8 ? s.size() : 0;
        if (!full_write(out, &len, 8) || !full_write(out, s.data(), len)) break;
    }
    _exit(0);
}
void start_zygote()
{
    if (z_owner == getpid()) return;
    if (z_in >= 0) ::close(z_in), ::close(z_out);
    int a[2], b[2];
    if (pipe(a) || pipe(b)) _exit(77);
    pid_t p = fork();
    if (p < 0) _exit(77);
    if (p == 0) {
        ::close(a[1]);
        ::close(b[0]);
        zygote(a[0], b[1]);
    }
    ::close(a[0]);
    ::close(b[1]);
    z_in = b[0];
    z_out = a[1];
    z_owner = getpid();
}
bool live_alone(const Life& l, const std::string& path, Notes& out, uint64_t& points)
{
    Ask q;
    memset(&q, 0, sizeof q);
    q.l = l;
    snprintf(q.path, sizeof q.path, "%s", path.c_str());
    uint64_t len = 0;
    if (!full_write(z_out, &q, sizeof q) || !full_read(z_in, &len, 8)) _exit(77);
    if (!len) return false;
    std::string s(len, 0);
    if (!full_read(z_in, &s[0], len)) _exit(77);
    memcpy(&points, s.data(), 8);
    for (size_t i = 8; i < s.size();) {
        size_t e = s.find('\n', i);
        out.push_back(s.substr(i, e - i));
        i = e + 1;
    }
    return true;
}
