#include "par.h"
#include "rng.h"
#include "seam.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

namespace par {
enum St { READY, BLOCKED, DONE };
struct Task {
    sem_t sem, end;
    pthread_t th;
    const std::function<void()>* f;
    St st;
    const void* on;
};
static const int MAX = 8;
static Task T[MAX];
static int N = 0;
static sem_t g_main;
static const Plan* g_plan = nullptr;
static size_t g_idx = 0;
static uint64_t g_since = 0;
static Report g_rep;
static Rng g_rng(1);
static __thread int me = -1;

bool in_task() { return me >= 0; }
static void wait_for(sem_t* s)
{
    while (sem_wait(s) != 0 && errno == EINTR) {}
}
static int pick()
{ // somebody else who can run, or -1
    int c[MAX], n = 0;
    for (int i = 0; i < N; i++)
        if (i != me && T[i].st == READY) c[n++] = i;
    return n ? c[n == 1 ? 0 : (int)g_rng.below((uint64_t)n)] : -1;
}
static void note(int j)
{
    g_rep.switches++;
    g_rep.trail = hash2(g_rep.trail, g_rep.points * 16 + (uint64_t)j);
    g_since = 0;
}
static void go(int j)
{
    note(j);
    int self = me;
    sem_post(&T[j].sem);
    wait_for(&T[self].sem);
}
void point()
{
    if (me < 0) return;
    uint64_t p = ++g_rep.points;
    bool sw = ++g_since > g_plan->patience;
    while (g_idx < g_plan->at.size() && g_plan->at[g_idx] <= p) {
        g_idx++;
        sw = true;
    }
    if (!sw) return;
    int e = errno;
    int j = pick();
    if (j >= 0) go(j);
    else
        g_since = 0;
    errno = e;
}
static void stuck()
{
    static const char m[] = "terminate called: all threads wait for each other (deadlock)\n";
    (void)!write(2, m, sizeof m - 1);
    abort();
}
static void block(const void* on)
{
    T[me].st = BLOCKED;
    T[me].on = on;
    int j = pick();
    if (j < 0) stuck();
    go(j);
}
static void wake(const void* on)
{
    for (int i = 0; i < N; i++)
        if (T[i].st == BLOCKED && T[i].on == on) T[i].st = READY;
}
static void yield_()
{
    int j = pick();
    if (j >= 0) go(j);
}
static void* body(void* a)
{
    int id = (int)(intptr_t)a;
    wait_for(&T[id].sem);
    me = id;
    (*T[id].f)();
    T[id].st = DONE;
    int j = pick();
    me = -1;
    if (j >= 0) {
        note(j);
        sem_post(&T[j].sem);
    } else {
        for (int i = 0; i < N; i++)
            if (T[i].st != DONE) stuck();
        sem_post(&g_main);
    }
    wait_for(&T[id].end); // threads end one after the other as well
    return nullptr;
}
Report run(const std::vector<std::function<void()>>& tasks, const Plan& plan)
{
    N = (int)tasks.size() < MAX ? (int)tasks.size() : MAX;
    if (!N) return Report();
    g_plan = &plan;
    g_idx = 0;
    g_since = 0;
    g_rep = Report();
    g_rng = Rng(plan.seed);
    sem_init(&g_main, 0, 0);
    for (int i = 0; i < N; i++) {
        T[i].f = &tasks[(size_t)i];
        T[i].st = READY;
        T[i].on = nullptr;
        sem_init(&T[i].sem, 0, 0);
        sem_init(&T[i].end, 0, 0);
        if (pthread_create(&T[i].th, nullptr, body, (void*)(intptr_t)i) != 0) {
            fprintf(stderr, "cannot create a thread\n");
            _exit(77);
        }
    }
    int first = pick();
    sem_post(&T[first].sem);
    wait_for(&g_main);
    for (int i = 0; i < N; i++) {
        sem_post(&T[i].end);
        pthread_join(T[i].th, nullptr);
        sem_destroy(&T[i].sem);
        sem_destroy(&T[i].end);
    }
    sem_destroy(&g_main);
    N = 0;
    return g_rep;
}
template <class F>
static F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
} // namespace par

static uint64_t g_work = 0;
namespace par {
uint64_t work() { return g_work; }
} // namespace par
extern "C" void __sanitizer_cov_trace_pc()
{
    if (par::me < 0) {
        g_work++;
        return;
    }
    if (seam::in_lib()) par::point();
}

// Locks: a task that has to wait lets the others go on.
using namespace par;
extern "C" {
#define REAL(name) static decltype(&name) r = nullptr; if (!r) r = real<decltype(&name)>(#name)
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    REAL(pthread_mutex_lock);
    if (me < 0) return r(m);
    for (;;) {
        int e = pthread_mutex_trylock(m);
        if (e != EBUSY) return e;
        block(m);
    }
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    REAL(pthread_mutex_unlock);
    int e = r(m);
    if (me >= 0) wake(m);
    return e;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
    REAL(pthread_rwlock_rdlock);
    if (me < 0) return r(m);
    for (;;) {
        int e = pthread_rwlock_tryrdlock(m);
        if (e != EBUSY) return e;
        block(m);
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
    REAL(pthread_rwlock_wrlock);
    if (me < 0) return r(m);
    for (;;) {
        int e = pthread_rwlock_trywrlock(m);
        if (e != EBUSY) return e;
        block(m);
    }
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
    REAL(pthread_rwlock_unlock);
    int e = r(m);
    if (me >= 0) wake(m);
    return e;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{ // (a waiter may always wake up for no reason)
    REAL(pthread_cond_wait);
    if (me < 0) return r(c, m);
    pthread_mutex_unlock(m);
    yield_();
    pthread_mutex_lock(m);
    return 0;
}
int sched_yield() noexcept
{
    if (me >= 0) yield_();
    return 0;
}
int pthread_once(pthread_once_t* ctl, void (*fn)(void))
{
    REAL(pthread_once);
    if (me < 0) return r(ctl, fn);
    while (*ctl == 1) block(ctl);
    if (*ctl == 2) return 0;
    *ctl = 1;
    try {
        fn();
    } catch (...) {
        *ctl = 0;
        wake(ctl);
        throw;
    }
    *ctl = 2;
    wake(ctl);
    return 0;
}
// static variables of functions
int __cxa_guard_acquire(uint64_t* g)
{
    volatile char* b = reinterpret_cast<char*>(g);
    if (b[0]) return 0;
    while (b[1]) {
        if (me < 0) stuck();
        block(g);
    }
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    volatile char* b = reinterpret_cast<char*>(g);
    b[1] = 0;
    b[0] = 1;
    if (me >= 0) wake(g);
}
void __cxa_guard_abort(uint64_t* g)
{
    volatile char* b = reinterpret_cast<char*>(g);
    b[1] = 0;
    if (me >= 0) wake(g);
}
}
