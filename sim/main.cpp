// usage:
//   sim run PROP FIRST STEP COUNT SECONDS SCRATCH OUT [thorough]   many seeds; results to OUT(.json/.states/.runs)
//   sim one PROP SEED SCRATCH [thorough]                          one seed, log on stdout
//   sim gen PROP SEED [thorough]                                   print its trace
//   sim replay FILE SCRATCH                                        log; exit 0 held, 1 violated, 3 other failure
//   sim shrink FILE SCRATCH OUT SECONDS                            minimise while the same violation persists
//   sim hashes PROP FIRST COUNT SCRATCH                            seed -> event-log hash
//   sim selftest                                                   check the model's hash function (hex of stdin)
#include "model.h"
#include "rng.h"
#include "seam.h"
#include "world.h"
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <iterator>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

static double now()
{ // only for the time budget of a batch, never visible to a run
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\';
        if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}
static void dump(const std::string& out, bool done, const char* verdict, const Result& r, uint64_t seed, double secs)
{
    std::ofstream o(out + ".tmp");
    o << "{\"done\":" << (done ? "true" : "false") << ",\"verdict\":" << jstr(verdict) << ",\"seed\":" << seed << ",\"cls\":" << jstr(r.cls) << ",\"msg\":" << jstr(r.msg) << ",\"hash\":" << r.hash;
    o << ",\"secs\":" << secs << ",\"runs\":" << stats.runs << ",\"foreign\":" << stats.foreign << ",\"steps\":" << stats.steps << ",\"noop\":" << stats.noop << ",\"blocks\":" << stats.sim_blocks << ",\"nontrivial\":" << stats.nontrivial;
    o << ",\"kinds\":{";
    for (int i = 0; i < NKINDS; i++) o << (i ? "," : "") << jstr(kind_name[i]) << ":" << stats.kinds[i];
    o << "},\"checks\":{";
    for (int i = 1; i <= 30; i++) o << (i > 1 ? "," : "") << "\"C" << (i < 10 ? "0" : "") << i << "\":" << stats.checks[i];
    o << "},\"probes\":{";
    bool f = true;
    for (auto& [k, v] : stats.probes) {
        o << (f ? "" : ",") << jstr(k) << ":" << v;
        f = false;
    }
    o << "},\"faults\":{";
    static const char* en[] = {"EIO", "ENOSPC", "short", "EINTR", "EMFILE"};
    f = true;
    auto put = [&](const std::string& k, uint64_t v) {
        if (!v) return;
        o << (f ? "" : ",") << jstr(k) << ":" << v;
        f = false;
    };
    for (int i = 0; i < seam::EV_N; i++) put(std::string("crash at ") + seam::ev_name[i], seam::ctr.fired_crash[i]);
    for (int i = 0; i < seam::D_NKINDS; i++) put(std::string("write-side ") + en[i], seam::ctr.fired_werr[i]);
    for (int i = 0; i < seam::D_NKINDS; i++) put(std::string("read-side ") + en[i], seam::ctr.fired_rerr[i]);
    for (int i = 0; i < seam::EV_N; i++) put(std::string("disk error on ") + seam::ev_name[i], seam::ctr.fired_on[i]);
    put("one allocation fails", seam::ctr.fired_alloc_once);
    put("allocations fail from a point on", seam::ctr.fired_alloc_sticky);
    put("allocation cap hit", seam::ctr.capped);
    o << "}}\n";
    o.close();
    rename((out + ".tmp").c_str(), out.c_str());
}
static void dump_set(const std::string& p, const std::unordered_set<uint64_t>& s)
{
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) return;
    std::vector<uint64_t> v(s.begin(), s.end());
    fwrite(v.data(), 8, v.size(), f);
    fclose(f);
}
static bool slurp(const char* p, std::string& s)
{
    std::ifstream f(p, std::ios::binary);
    if (!f) return false;
    s.assign(std::istreambuf_iterator<char>(f), {});
    return true;
}

// A run that does not come to an end dies of SIGALRM: after so many seconds of processor time, or many more of waiting.
static void on_prof(int)
{
    signal(SIGALRM, SIG_DFL);
    raise(SIGALRM);
}
static void watch(unsigned secs, const Trace* t)
{
    if (t && t->cfg.maxleaves >= 65536) secs *= 4;
    signal(SIGPROF, on_prof);
    struct itimerval v = {{0, 0}, {(time_t)secs, 0}};
    setitimer(ITIMER_PROF, &v, nullptr);
    alarm(8 * secs);
}

// Class of outcome of a trace in a child process: "" ok, "foreign", "V:<class>", "death"
static std::string outcome(const Trace& t, const std::string& scratch)
{
    int fd[2];
    if (pipe(fd)) return "error";
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        if (!getenv("SIM_STDERR")) (void)!freopen("/dev/null", "w", stderr);
        watch(20, &t);
        Result r = run_trace(t, scratch, nullptr);
        std::string s = r.v == Result::OK ? "" : r.v == Result::FOREIGN ? "foreign" : "V:" + r.cls;
        s = "x" + s;
        (void)!write(fd[1], s.data(), s.size());
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[256];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || s.empty()) return "death";
    return s.substr(1);
}

int main(int argc, char** argv)
{
    std::string mode = argc > 1 ? argv[1] : "";
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    if (mode == "selftest") {
        std::string in((std::istreambuf_iterator<char>(std::cin)), {});
        auto h = ref::sha512_256((const uint8_t*)in.data(), in.size());
        for (auto x : h) printf("%02x", x);
        printf("\n");
        return 0;
    }
    if (mode == "modeltest") { // the two models of the accumulator rules against each other
        Rng r(12345);
        for (int k = 0; k < 3000; k++) {
            ref::Sparse sp;
            std::vector<ref::H> lv;
            for (int b = 0; b < 5; b++) {
                std::vector<uint64_t> tg;
                uint64_t den = 1 + r.below(4);
                for (uint64_t i = 0; i < lv.size(); i++)
                    if (r.chance(1, den)) tg.push_back(i);
                ref::State before(lv);
                if (before.proof(tg) != sp.proof(tg)) return 1;
                lv = ref::remove(lv, tg);
                sp.remove(tg);
                for (uint64_t i = r.below(20); i; i--) {
                    ref::H h;
                    for (auto& x : h) x = (uint8_t)r.next();
                    lv.push_back(h);
                    sp.add(h);
                }
                ref::State after(lv);
                std::map<uint64_t, ref::H> got;
                sp.leaves(got);
                if (sp.n != after.n() || sp.root_hashes() != after.roots || got.size() != lv.size()) return 1;
                for (auto& [p, h] : got)
                    if (lv[p] != h) return 1;
            }
        }
        return 0;
    }
    if (mode == "gen") {
        fputs(to_text(generate(atoi(argv[2]), strtoull(argv[3], nullptr, 10), argc > 4)).c_str(), stdout);
        return 0;
    }
    if (mode == "run") {
        int prop = atoi(argv[2]);
        uint64_t first = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10);
        double secs = atof(argv[6]);
        std::string scratch = argv[7], out = argv[8];
        bool thorough = argc > 9;
        seam::set_scratch((scratch + "/").c_str());
        FILE* cur = fopen((out + ".cur").c_str(), "w");
        double t0 = now();
        Result last;
        for (uint64_t i = 0; i < count; i++) {
            uint64_t seed = first + i * stride;
            if (cur) { // so that a death can be attributed to its seed
                rewind(cur);
                fprintf(cur, "%llu                \n", (unsigned long long)seed);
                fflush(cur);
            }
            if ((i & 15) == 0 && now() - t0 > secs) break;
            Trace t = generate(prop, seed, thorough);
            watch(30, &t);
            Result r = run_trace(t, scratch, nullptr);
            watch(0, nullptr);
            if (r.v == Result::VIOLATION) {
                dump(out, true, "violation", r, seed, now() - t0);
                dump_set(out + ".states", stats.states);
                dump_set(out + ".runs", stats.runhash);
                return 1;
            }
            if (r.v == Result::FOREIGN) last = r, last.hash = seed;
        }
        dump(out, true, "held", last, last.hash, now() - t0);
        dump_set(out + ".states", stats.states);
        dump_set(out + ".runs", stats.runhash);
        return 0;
    }
    if (mode == "hashes") {
        int prop = atoi(argv[2]);
        uint64_t first = strtoull(argv[3], nullptr, 10), count = strtoull(argv[4], nullptr, 10);
        std::string scratch = argv[5];
        seam::set_scratch((scratch + "/").c_str());
        for (uint64_t s = first; s < first + count; s++) {
            Result r = run_trace(generate(prop, s, false), scratch, nullptr);
            printf("%llu %016llx %d\n", (unsigned long long)s, (unsigned long long)r.hash, (int)r.v);
        }
        return 0;
    }
    if (mode == "one" || mode == "replay") {
        Trace t;
        std::string scratch;
        if (mode == "one") {
            t = generate(atoi(argv[2]), strtoull(argv[3], nullptr, 10), argc > 5);
            scratch = argv[4];
        } else {
            std::string s;
            if (!slurp(argv[2], s) || !from_text(s, t)) return 2;
            scratch = argv[3];
        }
        seam::set_scratch((scratch + "/").c_str());
        setvbuf(stdout, nullptr, _IONBF, 0);
        watch(40, &t);
        Result r = run_trace(t, scratch, stdout);
        printf("result %s class=%s hash=%016llx %s\n", r.v == Result::OK ? "held" : r.v == Result::FOREIGN ? "foreign" : "violated", r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
        return r.v == Result::OK ? 0 : r.v == Result::VIOLATION ? 1 : 3;
    }
    if (mode == "shrink") {
        Trace t;
        std::string s, scratch = argv[3];
        if (!slurp(argv[2], s) || !from_text(s, t)) return 2;
        double t0 = now(), secs = atof(argv[5]);
        seam::set_scratch((scratch + "/").c_str());
        std::string want = outcome(t, scratch);
        if (want == "" || want == "foreign") {
            fprintf(stderr, "does not fail\n");
            return 2;
        }
        auto still = [&](const Trace& u) { return now() - t0 < secs && outcome(u, scratch) == want; };
        bool progress = true;
        // faults-free ending first, then drop steps in ever smaller chunks, then simplify arguments
        {
            Trace u = t;
            u.cfg.heal = 0;
            if (still(u)) t = u;
        }
        while (progress && now() - t0 < secs) {
            progress = false;
            for (size_t chunk = std::max<size_t>(1, t.steps.size() / 2);; chunk /= 2) {
                for (size_t i = 0; i + chunk <= t.steps.size();) {
                    Trace u = t;
                    u.steps.erase(u.steps.begin() + (long)i, u.steps.begin() + (long)(i + chunk));
                    if (still(u)) {
                        t = u;
                        progress = true;
                    } else
                        i += chunk;
                }
                if (chunk == 1) break;
            }
            auto try_cfg = [&](uint32_t Cfg::*m, uint32_t v) {
                if (t.cfg.*m == v) return;
                Trace u = t;
                u.cfg.*m = v;
                if (still(u)) t = u, progress = true;
            };
            try_cfg(&Cfg::nb, 1);
            try_cfg(&Cfg::nc, 1);
            try_cfg(&Cfg::files, 0);
            try_cfg(&Cfg::files, 1);
            try_cfg(&Cfg::collide, 0);
            try_cfg(&Cfg::readd, 0);
            try_cfg(&Cfg::policy, 0);
            try_cfg(&Cfg::policy, 1);
            for (uint32_t v : {3, 5, 8, 12, 16}) {
                if (v < t.cfg.maxleaves) try_cfg(&Cfg::maxleaves, v);
            }
            for (size_t i = 0; i < t.steps.size(); i++)
                for (int f = 0; f < 3; f++) {
                    uint32_t Step::*m = f == 0 ? &Step::a : f == 1 ? &Step::b : &Step::c;
                    for (uint32_t v : {0u, 1u, (t.steps[i].*m) / 2}) {
                        if (v >= t.steps[i].*m) continue;
                        Trace u = t;
                        u.steps[i].*m = v;
                        if (still(u)) {
                            t = u;
                            progress = true;
                            break;
                        }
                    }
                }
        }
        std::ofstream o(argv[4]);
        o << to_text(t);
        o.close();
        printf("%s\n", want.c_str());
        return 0;
    }
    fprintf(stderr, "bad usage\n");
    return 2;
}
