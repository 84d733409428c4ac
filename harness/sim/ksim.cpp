// ksim runtime, see ksim.h.  Compiled WITHOUT -fsanitize=thread.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "ksim.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace {
constexpr int MAXT = 24;
constexpr int MAXDP = 6000;

long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t x = 1) { seed(x); }
    void seed(uint64_t x)
    {
        s = x * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull;
        for (int i = 0; i < 4; i++)
            next();
    }
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool permille(int p) { return (int) below(1000) < p; }
};

struct VC
{
    uint32_t c[MAXT];
    VC() { memset(c, 0, sizeof c); }
    void join(const VC &o)
    {
        for (int i = 0; i < MAXT; i++)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

enum St { RUN, BLK_MUTEX, BLK_COND, BLK_SLEEP, BLK_JOIN, BLK_FUTEX, BLK_OTHER, DONE };

struct Th
{
    int id = 0;
    St st = RUN;
    volatile int baton = 0;
    void *addr = nullptr;   // what it waits for
    int64_t deadline = -1;  // virtual time, -1 none
    bool woken = false;     // woken by a notification (not a timeout)
    int64_t prio = 0;
    int spin = 0;           // visible steps since this thread last logged, blocked or was switched out
    int stale = 0;
    bool detached = false;
    pthread_t real{};
    bool hasReal = false;
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    void *ret = nullptr;
    VC vc, acqF, relF; // clocks for weak mode: current, pending acquire fence, release fence
    bool hasRelF = false;
};

// ---- shared with the parent
struct Shm
{
    volatile int status; // 0 running, 1 finished, 2 stuck
    volatile int len;
    volatile int ndp;
    volatile uint64_t steps;
    volatile int threads;
    volatile int switches;
    uint8_t dpcur[MAXDP];
    uint32_t dpmask[MAXDP];
    char buf[1 << 20];
    uint8_t hot[1 << 21]; // places in the program whose plain accesses are worth a switch (by offset)
};
Shm *shm = nullptr;

bool g_active = false;
bool g_weak = false;
int g_nopreempt = 0;
Th g_thv[MAXT];
int g_n = 0;
int g_cur = 0;
__thread Th *t_self = nullptr;
pthread_key_t g_key;
int64_t g_time = 0;
uint64_t g_steps = 0, g_sinceLog = 0, g_plain = 0;
int g_adv = 4000, g_fairMax = 60000;
bool g_fair = false;
int g_rr = 0;
Rng g_sr, g_dr; // schedule / data
enum Mode { M_RANDOM, M_PCT, M_SYS } g_mode = M_RANDOM;
bool g_prompt = false; // sleepers wake up as soon as their time has come
int g_rot = 0;
int g_psw = 200, g_pplain = 0, g_ptime = 10, g_pspur = 0, g_pcasfail = 0;
int g_plainCount = 0;
std::vector<uint64_t> g_change;
int64_t g_lowPrio = 0;
std::map<int, int> g_forced;
int g_dp = 0;

struct MutexSt
{
    int owner = -1;
    int count = 0;
    VC vc;
};
std::unordered_map<void *, MutexSt> *g_mutex;
// Places where threads touch the same plain memory without a common lock are found in probe runs
// before all others; later runs like to switch threads just there. This steers schedules only: it
// judges nothing.
bool g_probe = false;
int g_fill = -1; // what fresh memory holds
bool g_keepFreed = false;
int g_hotP = 0, g_hotLeft = 0;
uint32_t g_gen = 1; // threads created or joined so far: what was before is ordered
uint64_t g_lockBits[MAXT];
std::unordered_map<void *, int> *g_lockIdx;
struct Shadow
{
    uint32_t gen = 0;
    int8_t tid = -1;
    bool wr = false;
    uint64_t locks = 0;
    uint32_t pc = 0;
};
std::unordered_map<uintptr_t, Shadow> *g_shadow;
struct RwSt
{
    int writer = -1;
    int readers = 0;
    VC vc;
};
std::unordered_map<void *, RwSt> *g_rw;

struct Store
{
    uint64_t val;
    VC rel;
    bool hasRel;
    int tid;
    uint32_t ep;
};
struct Loc
{
    std::vector<Store> h;
    int seen[MAXT];
    struct
    {
        int idx;
        uint32_t ep;
    } rd[MAXT];
    int lastSC = -1;
    int size = 0;
    Loc()
    {
        for (int i = 0; i < MAXT; i++)
            seen[i] = -1, rd[i].idx = -1, rd[i].ep = 0;
    }
};
std::unordered_map<uintptr_t, Loc> *g_loc;
VC g_scf;
struct Pay
{
    std::vector<Store> h;
    int seen[MAXT] = {};
};
std::unordered_map<const void *, Pay> *g_pay;

void die(const char *m)
{
    fprintf(stderr, "ksim: %s\n", m);
    _exit(70);
}

[[noreturn]] void finishRun(int status)
{
    shm->steps = g_steps;
    shm->threads = g_n;
    shm->ndp = g_dp;
    shm->status = status;
    rawsys(SYS_exit_group, 0);
    __builtin_unreachable();
}

void appendEv(const char *s, size_t n)
{
    int l = shm->len;
    if (l + (int) n + 8 > (int) sizeof(shm->buf))
        return;
    char *b = shm->buf + l;
    if (l)
        *b++ = ',';
    *b++ = '{';
    memcpy(b, s, n);
    b += n;
    *b++ = '}';
    shm->len = (int) (b - shm->buf);
}

inline bool simming()
{
    return g_active && t_self;
}

void futexWait(volatile int *a)
{
    while (!*a)
        rawsys(SYS_futex, (long) a, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    *a = 0;
}
void futexWake(volatile int *a)
{
    *a = 1;
    rawsys(SYS_futex, (long) a, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

void switchTo(int n)
{
    if (n == g_cur)
        return;
    Th *me = &g_thv[g_cur];
    me->spin = 0;
    shm->switches = shm->switches + 1;
    g_cur = n;
    g_thv[n].spin = 0;
    futexWake(&g_thv[n].baton);
    futexWait(&me->baton);
}

void timeouts()
{
    for (int i = 0; i < g_n; i++) {
        Th &t = g_thv[i];
        if (t.st != RUN && t.st != DONE && t.deadline >= 0 && t.deadline <= g_time) {
            t.st = RUN;
            t.deadline = -1;
            t.woken = false;
        }
    }
}
int64_t earliest()
{
    int64_t m = -1;
    for (int i = 0; i < g_n; i++) {
        Th &t = g_thv[i];
        if (t.st != RUN && t.st != DONE && t.deadline >= 0 && (m < 0 || t.deadline < m))
            m = t.deadline;
    }
    return m;
}
bool advance()
{
    int64_t m = earliest();
    if (m < 0)
        return false;
    if (m > g_time)
        g_time = m;
    timeouts();
    return true;
}
void spuriousOne()
{
    int c[MAXT], k = 0;
    for (int i = 0; i < g_n; i++)
        if (g_thv[i].st == BLK_COND)
            c[k++] = i;
    if (!k)
        return;
    Th &t = g_thv[c[g_sr.below(k)]];
    t.st = RUN;
    t.deadline = -1;
    t.woken = true;
}
uint32_t runMask()
{
    uint32_t m = 0;
    for (int i = 0; i < g_n; i++)
        if (g_thv[i].st == RUN)
            m |= 1u << i;
    return m;
}
int nextCyclic(uint32_t mask, int from)
{
    for (int k = 1; k <= g_n; k++) {
        int i = (from + k) % g_n;
        if (mask & (1u << i))
            return i;
    }
    return -1;
}

// choose who runs next. canStay: the current thread is runnable. yielded: it asked to give way.
int pick(bool canStay, bool yielded)
{
    if (g_pspur && !g_fair && g_sr.permille(g_pspur))
        spuriousOne();
    if (g_mode != M_SYS && !g_fair && g_ptime && !g_prompt && g_sr.permille(g_ptime))
        advance();
    uint32_t mask = runMask();
    while (!mask) {
        if (!advance()) {
            appendEv("\"e\":\"stuck\"", 11);
            finishRun(2);
        }
        mask = runMask();
    }
    if (canStay && !(mask & (1u << g_cur)))
        die("internal: current not runnable");
    if (g_fair) {
        if (canStay && !yielded && ++g_rr < 25)
            return g_cur;
        g_rr = 0;
        int n = nextCyclic(mask, g_cur);
        if (n <= g_cur && (!g_prompt || ++g_rot >= 40)) { // one rotation done: let time pass
            g_rot = 0;
            advance();
        }
        return n;
    }
    if (canStay && __builtin_popcount(mask) == 1) {
        if (yielded || g_thv[g_cur].spin > 200) {
            g_thv[g_cur].spin = 0;
            advance();
            mask = runMask();
        }
        if (__builtin_popcount(mask) == 1)
            return g_cur;
    }
    switch (g_mode) {
    case M_RANDOM: {
        if (canStay && !(yielded ? g_sr.permille(800) : g_sr.permille(g_psw))
            && g_thv[g_cur].spin < 300)
            return g_cur;
        int k = (int) g_sr.below(__builtin_popcount(mask));
        for (int i = 0; i < g_n; i++)
            if (mask & (1u << i))
                if (k-- == 0)
                    return i;
        return g_cur;
    }
    case M_PCT: {
        if (canStay) {
            bool demote = yielded || g_thv[g_cur].spin > 60;
            while (!g_change.empty() && g_change.back() <= g_steps) {
                g_change.pop_back();
                demote = true;
            }
            if (demote) {
                g_thv[g_cur].prio = --g_lowPrio;
                g_thv[g_cur].spin = 0;
            }
        }
        int b = -1;
        for (int i = 0; i < g_n; i++)
            if ((mask & (1u << i)) && (b < 0 || g_thv[i].prio > g_thv[b].prio))
                b = i;
        return b;
    }
    case M_SYS: {
        int res;
        if (canStay && !yielded && g_thv[g_cur].spin < 40)
            res = g_cur;
        else
            res = nextCyclic(mask, g_cur);
        if (g_dp < MAXDP) {
            shm->dpcur[g_dp] = (uint8_t) res;
            // bit 31: time could advance
            shm->dpmask[g_dp] = mask | (earliest() >= 0 ? 0x80000000u : 0);
        }
        auto f = g_forced.find(g_dp);
        g_dp++;
        if (f != g_forced.end()) {
            if (f->second == 31) {
                if (advance()) {
                    // run a thread that was just woken
                    uint32_t nm = runMask() & ~mask;
                    if (nm)
                        return nextCyclic(nm, g_cur);
                }
            } else if (mask & (1u << f->second))
                res = f->second;
        }
        return res;
    }
    }
    return g_cur;
}

void budget()
{
    g_steps++;
    g_sinceLog++;
    g_time += 20;
    g_thv[g_cur].spin++;
    if (!g_fair && (g_sinceLog > (uint64_t) g_adv || g_steps > 40000))
        g_fair = true;
    if ((g_fair && g_sinceLog > (uint64_t) (g_adv + g_fairMax)) || g_steps > 2000000) {
        appendEv("\"e\":\"stuck\",\"live\":1", 20);
        finishRun(2);
    }
}

// a visible operation of the current thread is about to happen
void visible(bool yielded = false)
{
    if (!simming())
        return;
    budget();
    timeouts();
    if (g_nopreempt)
        return;
    switchTo(pick(true, yielded));
}
void blockHere()
{
    budget();
    g_thv[g_cur].spin = 0;
    switchTo(pick(false, false));
}
void wake(Th &t)
{
    t.st = RUN;
    t.deadline = -1;
    t.woken = true;
}
void wakeAll(void *addr, St kind)
{
    for (int i = 0; i < g_n; i++)
        if (g_thv[i].st == kind && g_thv[i].addr == addr)
            wake(g_thv[i]);
}
int wakeN(void *addr, St kind, int n)
{
    int done = 0;
    while (done < n) {
        int c[MAXT], k = 0;
        for (int i = 0; i < g_n; i++)
            if (g_thv[i].st == kind && g_thv[i].addr == addr)
                c[k++] = i;
        if (!k)
            break;
        int j = g_mode == M_SYS ? 0 : (int) g_sr.below(k);
        wake(g_thv[c[j]]);
        done++;
    }
    return done;
}
// sleep until woken or deadline; true if woken
bool waitOn(void *addr, St kind, int64_t deadline)
{
    Th &t = g_thv[g_cur];
    t.st = kind;
    t.addr = addr;
    t.deadline = deadline;
    t.woken = false;
    blockHere();
    return g_thv[g_cur].woken;
}

extern "C" char __executable_start;
inline uint32_t hotIdx(void *pc)
{
    return (uint32_t) (((uintptr_t) pc - (uintptr_t) &__executable_start) & ((1u << 24) - 1));
}
void probeAccess(uint32_t pc, uintptr_t a, bool wr)
{
    g_active = false; // whatever is done here is not part of the run
    Shadow &x = (*g_shadow)[a >> 3];
    uint64_t locks = g_lockBits[g_cur];
    if (x.gen == g_gen && x.tid >= 0 && x.tid != g_cur && (wr || x.wr) && !(locks & x.locks)) {
        shm->hot[pc >> 3] |= (uint8_t) (1u << (pc & 7));
        shm->hot[x.pc >> 3] |= (uint8_t) (1u << (x.pc & 7));
    }
    if (wr || x.gen != g_gen || !x.wr) {
        x.gen = g_gen;
        x.tid = (int8_t) g_cur;
        x.wr = wr;
        x.locks = locks;
        x.pc = pc;
    }
    g_active = true;
}
inline void switchSomewhere()
{
    uint32_t mask = runMask();
    int k = (int) g_sr.below(__builtin_popcount(mask));
    for (int i = 0; i < g_n; i++)
        if (mask & (1u << i))
            if (k-- == 0) {
                switchTo(i);
                break;
            }
}
inline void plainAccess(void *at = nullptr, uintptr_t a = 0, bool wr = false)
{
    if (!simming())
        return;
    if (at && g_n > 1) {
        if (g_probe)
            probeAccess(hotIdx(at), a, wr);
        else if (g_hotP && g_hotLeft > 0 && !g_fair && !g_nopreempt) {
            uint32_t i = hotIdx(at);
            if ((shm->hot[i >> 3] & (1u << (i & 7))) && g_sr.permille(g_hotP)) {
                g_hotLeft--;
                switchSomewhere();
            }
        }
    }
    if (++g_plain > 3000000) {
        appendEv("\"e\":\"stuck\",\"live\":2", 20);
        finishRun(2);
    }
    if (g_pplain && !g_fair && --g_plainCount <= 0) {
        g_plainCount = 1 + (int) g_sr.below(2 * g_pplain);
        if (!g_nopreempt)
            switchSomewhere();
    }
}
void plainWrite(uintptr_t a, size_t n, void *at = nullptr)
{
    plainAccess(at, a, true);
    if (g_weak && simming() && !g_loc->empty()) {
        for (uintptr_t x = a & ~7ull; x < a + n; x += 1) {
            auto it = g_loc->find(x);
            if (it != g_loc->end())
                g_loc->erase(it);
        }
    }
}

template<class F> F real(const char *n)
{
    return (F) dlsym(RTLD_NEXT, n);
}
#define REAL(name) \
    static auto r = real<decltype(&name)>(#name); \
    (void) r

void lockSim(void *m, bool recursive)
{
    MutexSt *s = &(*g_mutex)[m];
    int me = g_cur;
    if (s->owner == me && recursive) {
        s->count++;
        return;
    }
    while (s->owner != -1) {
        waitOn(m, BLK_MUTEX, -1);
        s = &(*g_mutex)[m];
    }
    s->owner = me;
    s->count = 1;
    if (g_probe) {
        auto x = g_lockIdx->emplace(m, (int) g_lockIdx->size() % 64).first;
        g_lockBits[me] |= 1ull << x->second;
    }
    if (g_weak)
        g_thv[me].vc.join(s->vc);
}
void bump(Th &t) { t.vc.c[t.id]++; }
void unlockSim(void *m)
{
    MutexSt &s = (*g_mutex)[m];
    if (s.owner != g_cur) {
        appendEv("\"e\":\"impossible\",\"w\":\"unlock of a mutex not held\"", 48);
        return;
    }
    if (--s.count > 0)
        return;
    s.owner = -1;
    if (g_probe) {
        auto x = g_lockIdx->find(m);
        if (x != g_lockIdx->end())
            g_lockBits[g_cur] &= ~(1ull << x->second);
    }
    if (g_weak) {
        s.vc.join(g_thv[g_cur].vc);
        bump(g_thv[g_cur]);
    }
    wakeAll(m, BLK_MUTEX);
}
bool isRec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int64_t tsNs(const timespec *t) { return (int64_t) t->tv_sec * 1000000000ll + t->tv_nsec; }
constexpr int64_t RT_BASE = 1700000000ll * 1000000000ll;
int64_t toVirt(clockid_t c, const timespec *abs)
{
    int64_t v = tsNs(abs);
    if (c == CLOCK_REALTIME)
        v -= RT_BASE;
    return v < 0 ? 0 : v;
}

void threadDone(void *)
{
    Th *me = t_self;
    if (!me || !g_active)
        return;
    if (g_weak)
        bump(*me);
    me->st = DONE;
    wakeAll(me, BLK_JOIN);
    g_sinceLog = g_sinceLog / 2;
    int n = pick(false, false);
    g_cur = n;
    g_thv[n].spin = 0;
    t_self = nullptr;
    futexWake(&g_thv[n].baton);
}
void *threadMain(void *p)
{
    Th *me = (Th *) p;
    t_self = me;
    futexWait(&me->baton);
    pthread_setspecific(g_key, me);
    me->ret = me->fn(me->arg);
    return me->ret;
}
Th *byPthread(pthread_t p)
{
    for (int i = g_n - 1; i >= 0; i--)
        if (g_thv[i].hasReal && pthread_equal(g_thv[i].real, p))
            return &g_thv[i];
    return nullptr;
}
} // namespace

// ------------------------------------------------------------------ interposed libc
extern "C" {
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    REAL(pthread_create);
    if (!simming())
        return r(p, a, fn, arg);
    visible();
    if (g_n >= MAXT)
        return EAGAIN; // as a real system at its limit
    g_gen++;
    Th &t = g_thv[g_n];
    t = Th();
    t.id = g_n;
    t.fn = fn;
    t.arg = arg;
    t.prio = (int64_t) g_sr.below(1000000) + 1;
    if (g_weak) {
        t.vc = g_thv[g_cur].vc;
        t.vc.c[t.id] = 1;
        bump(g_thv[g_cur]);
    }
    g_n++;
    int rc = r(&t.real, nullptr, threadMain, &t);
    if (rc)
        die("cannot create a thread");
    t.hasReal = true;
    *p = t.real;
    visible();
    return 0;
}
int pthread_join(pthread_t p, void **ret)
{
    REAL(pthread_join);
    if (!simming())
        return r(p, ret);
    visible();
    Th *t = byPthread(p);
    if (!t)
        return ESRCH;
    if (t == t_self)
        return EDEADLK;
    while (t->st != DONE)
        waitOn(t, BLK_JOIN, -1);
    g_gen++;
    if (g_weak)
        g_thv[g_cur].vc.join(t->vc);
    t->hasReal = false;
    int rc = r(p, ret);
    return rc;
}
int pthread_detach(pthread_t p)
{
    REAL(pthread_detach);
    if (simming()) {
        Th *t = byPthread(p);
        if (t)
            t->detached = true;
        return 0;
    }
    return r(p);
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
    REAL(pthread_mutex_lock);
    if (!simming())
        return r(m);
    visible();
    lockSim(m, isRec(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    REAL(pthread_mutex_trylock);
    if (!simming())
        return r(m);
    visible();
    MutexSt &s = (*g_mutex)[m];
    if (s.owner != -1 && !(s.owner == g_cur && isRec(m)))
        return EBUSY;
    lockSim(m, isRec(m));
    return 0;
}
static int timedLock(pthread_mutex_t *m, clockid_t c, const timespec *abs)
{
    visible();
    int64_t dl = toVirt(c, abs);
    for (;;) {
        MutexSt &s = (*g_mutex)[m];
        if (s.owner == -1 || (s.owner == g_cur && isRec(m))) {
            lockSim(m, isRec(m));
            return 0;
        }
        if (g_time >= dl)
            return ETIMEDOUT;
        waitOn(m, BLK_MUTEX, dl);
    }
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *abs)
{
    REAL(pthread_mutex_timedlock);
    return simming() ? timedLock(m, CLOCK_REALTIME, abs) : r(m, abs);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *abs)
{
    REAL(pthread_mutex_clocklock);
    return simming() ? timedLock(m, c, abs) : r(m, c, abs);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    REAL(pthread_mutex_unlock);
    if (!simming())
        return r(m);
    unlockSim(m);
    visible();
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
    REAL(pthread_mutex_destroy);
    if (!simming())
        return r(m);
    g_mutex->erase(m);
    return 0;
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t dl)
{
    visible();
    unlockSim(m);
    bool w = waitOn(c, BLK_COND, dl);
    lockSim(m, false);
    return w ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    REAL(pthread_cond_wait);
    return simming() ? condWait(c, m, -1) : r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *abs)
{
    REAL(pthread_cond_timedwait);
    return simming() ? condWait(c, m, toVirt(CLOCK_REALTIME, abs)) : r(c, m, abs);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *abs)
{
    REAL(pthread_cond_clockwait);
    return simming() ? condWait(c, m, toVirt(k, abs)) : r(c, m, k, abs);
}
int pthread_cond_signal(pthread_cond_t *c)
{
    REAL(pthread_cond_signal);
    if (!simming())
        return r(c);
    visible();
    wakeN(c, BLK_COND, 1);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    REAL(pthread_cond_broadcast);
    if (!simming())
        return r(c);
    visible();
    wakeN(c, BLK_COND, MAXT);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t *c)
{
    REAL(pthread_cond_destroy);
    if (!simming())
        return r(c);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    REAL(pthread_rwlock_wrlock);
    if (!simming())
        return r(m);
    visible();
    for (;;) {
        RwSt &s = (*g_rw)[m];
        if (s.writer == -1 && s.readers == 0) {
            s.writer = g_cur;
            g_thv[g_cur].vc.join(s.vc);
            return 0;
        }
        waitOn(m, BLK_OTHER, -1);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    REAL(pthread_rwlock_rdlock);
    if (!simming())
        return r(m);
    visible();
    for (;;) {
        RwSt &s = (*g_rw)[m];
        if (s.writer == -1) {
            s.readers++;
            g_thv[g_cur].vc.join(s.vc);
            return 0;
        }
        waitOn(m, BLK_OTHER, -1);
    }
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m)
{
    REAL(pthread_rwlock_trywrlock);
    if (!simming())
        return r(m);
    visible();
    RwSt &s = (*g_rw)[m];
    if (s.writer != -1 || s.readers)
        return EBUSY;
    s.writer = g_cur;
    g_thv[g_cur].vc.join(s.vc);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
{
    REAL(pthread_rwlock_tryrdlock);
    if (!simming())
        return r(m);
    visible();
    RwSt &s = (*g_rw)[m];
    if (s.writer != -1)
        return EBUSY;
    s.readers++;
    g_thv[g_cur].vc.join(s.vc);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    REAL(pthread_rwlock_unlock);
    if (!simming())
        return r(m);
    RwSt &s = (*g_rw)[m];
    if (s.writer == g_cur)
        s.writer = -1;
    else if (s.readers > 0)
        s.readers--;
    s.vc.join(g_thv[g_cur].vc);
    bump(g_thv[g_cur]);
    wakeAll(m, BLK_OTHER);
    visible();
    return 0;
}
int pthread_once(pthread_once_t *o, void (*f)(void))
{
    REAL(pthread_once);
    if (!simming())
        return r(o, f);
    visible();
    for (;;) {
        int &s = *(int *) o; // kept in the object itself, which may be reused
        if (s == 2)
            return 0;
        if (s == 0) {
            s = 1;
            struct Guard
            {
                pthread_once_t *o;
                bool ok = false;
                ~Guard()
                {
                    *(int *) o = ok ? 2 : 0;
                    wakeAll(o, BLK_OTHER);
                }
            } g{o};
            f();
            g.ok = true;
            return 0;
        }
        waitOn(o, BLK_OTHER, -1);
    }
}
int sched_yield(void) noexcept
{
    if (!simming())
        return (int) rawsys(SYS_sched_yield);
    visible(true);
    return 0;
}
static void sleepNs(int64_t ns)
{
    visible();
    if (ns <= 0)
        return;
    waitOn(nullptr, BLK_SLEEP, g_time + ns);
}
int nanosleep(const timespec *t, timespec *rem)
{
    if (!simming())
        return (int) rawsys(SYS_nanosleep, (long) t, (long) rem);
    sleepNs(tsNs(t));
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec *t, timespec *rem)
{
    if (!simming())
        return (int) -rawsys(SYS_clock_nanosleep, c, flags, (long) t, (long) rem);
    if (flags & TIMER_ABSTIME) {
        int64_t dl = toVirt(c, t);
        sleepNs(dl - g_time);
    } else
        sleepNs(tsNs(t));
    return 0;
}
int usleep(useconds_t u)
{
    timespec t{(time_t) (u / 1000000), (long) (u % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s)
{
    timespec t{(time_t) s, 0};
    nanosleep(&t, nullptr);
    return 0;
}
int clock_gettime(clockid_t c, timespec *t) noexcept
{
    if (!simming())
        return (int) rawsys(SYS_clock_gettime, c, (long) t);
    visible();
    g_time += 50;
    int64_t v = g_time + (c == CLOCK_REALTIME ? RT_BASE : 0);
    t->tv_sec = v / 1000000000ll;
    t->tv_nsec = v % 1000000000ll;
    return 0;
}
int gettimeofday(timeval *tv, void *) noexcept
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *o) noexcept
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (o)
        *o = t.tv_sec;
    return t.tv_sec;
}
long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (long &x : a)
        x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && simming()) {
        int op = (int) a[1] & 127 & ~FUTEX_CLOCK_REALTIME;
        int *addr = (int *) a[0];
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            visible();
            if (*(volatile int *) addr != (int) a[2]) {
                errno = EAGAIN;
                return -1;
            }
            int64_t dl = -1;
            auto *ts = (const timespec *) a[3];
            if (ts)
                dl = op == FUTEX_WAIT ? g_time + tsNs(ts)
                                      : toVirt((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME
                                                                             : CLOCK_MONOTONIC,
                                               ts);
            if (!waitOn(addr, BLK_FUTEX, dl)) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int k = wakeN(addr, BLK_FUTEX, (int) a[2]);
            visible();
            return k;
        }
    }
    long rc = rawsys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (rc < 0 && rc > -4096) {
        errno = (int) -rc;
        return -1;
    }
    return rc;
}
} // extern "C"

// ------------------------------------------------------------------ memory hooks
namespace {
bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

template<class T> uint64_t bits(T v)
{
    uint64_t u = 0;
    memcpy(&u, &v, sizeof(T) > 8 ? 8 : sizeof(T));
    return u;
}
template<class T> T unbits(uint64_t u)
{
    T v;
    memcpy(&v, &u, sizeof(T));
    return v;
}
template<class T> Loc &locOf(volatile T *a)
{
    Loc &l = (*g_loc)[(uintptr_t) a];
    if (l.h.empty() || l.h.back().val != bits<T>(*a) || l.size != (int) sizeof(T)) {
        l = Loc();
        l.size = sizeof(T);
        Store s;
        s.val = bits<T>(*a);
        s.hasRel = false;
        s.tid = 0;
        s.ep = 0;
        l.h.push_back(s);
    }
    return l;
}
void pushStore(Loc &l, uint64_t v, int mo, bool rmw)
{
    Th &t = g_thv[g_cur];
    Store s;
    s.val = v;
    s.hasRel = false;
    s.tid = t.id;
    s.ep = t.vc.c[t.id];
    if (isRel(mo)) {
        s.rel = t.vc;
        s.hasRel = true;
    } else if (t.hasRelF) {
        s.rel = t.relF;
        s.hasRel = true;
    }
    if (rmw && l.h.back().hasRel) { // continues the release sequence
        s.rel.join(l.h.back().rel);
        s.hasRel = true;
    }
    l.h.push_back(s);
    int idx = (int) l.h.size() - 1;
    l.seen[t.id] = idx;
    if (mo == 5)
        l.lastSC = idx;
    bump(t);
    if (l.h.size() > 256) { // forget the distant past
        int cut = 128;
        l.h.erase(l.h.begin(), l.h.begin() + cut);
        for (int i = 0; i < MAXT; i++) {
            l.seen[i] = std::max(-1, l.seen[i] - cut);
            l.rd[i].idx = std::max(-1, l.rd[i].idx - cut);
        }
        l.lastSC = std::max(-1, l.lastSC - cut);
    }
}
void readFrom(Loc &l, int idx, int mo)
{
    Th &t = g_thv[g_cur];
    Store &s = l.h[idx];
    if (s.hasRel) {
        if (isAcq(mo))
            t.vc.join(s.rel);
        else
            t.acqF.join(s.rel);
    }
    if (idx > l.seen[t.id])
        l.seen[t.id] = idx;
    l.rd[t.id].idx = idx;
    l.rd[t.id].ep = t.vc.c[t.id];
}
int chooseStore(Loc &l, int mo)
{
    Th &t = g_thv[g_cur];
    int last = (int) l.h.size() - 1;
    if (g_fair || t.stale > 6) {
        t.stale = 0;
        return last;
    }
    int lb = std::max(0, l.seen[t.id]);
    for (int i = last; i > lb; i--)
        if (l.h[i].ep <= t.vc.c[l.h[i].tid]) {
            lb = i;
            break;
        }
    for (int u = 0; u < g_n; u++)
        if (l.rd[u].idx > lb && l.rd[u].ep <= t.vc.c[u] && u != t.id)
            lb = l.rd[u].idx;
    if (mo == 5 && l.lastSC > lb)
        lb = l.lastSC;
    if (lb >= last || g_sr.permille(600)) {
        t.stale = 0;
        return last;
    }
    t.stale++;
    return lb + (int) g_sr.below(last - lb + 1);
}
template<class T> T aLoad(volatile T *a, int mo)
{
    visible();
    if (!simming() || !g_weak)
        return *a;
    Loc &l = locOf<T>(a);
    int i = chooseStore(l, mo);
    readFrom(l, i, mo);
    return unbits<T>(l.h[i].val);
}
template<class T> void aStore(volatile T *a, T v, int mo)
{
    visible();
    if (simming() && g_weak) {
        Loc &l = locOf<T>(a);
        *a = v;
        pushStore(l, bits<T>(v), mo, false);
    } else
        *a = v;
}
template<class T, class F> T aRmw(volatile T *a, int mo, F f)
{
    visible();
    T old = *a;
    T nv = f(old);
    if (simming() && g_weak) {
        Loc &l = locOf<T>(a);
        readFrom(l, (int) l.h.size() - 1, mo);
        *a = nv;
        pushStore(l, bits<T>(nv), mo, true);
    } else
        *a = nv;
    return old;
}
template<class T> int aCas(volatile T *a, T *e, T v, int mo, int fmo, bool weakCas)
{
    visible();
    T old = *a;
    bool same = memcmp(&old, e, sizeof(T)) == 0;
    if (same && weakCas && simming() && !g_fair && g_pcasfail && g_sr.permille(g_pcasfail))
        return 0; // spurious failure, *e keeps the value
    if (!same) {
        if (simming() && g_weak) {
            Loc &l = locOf<T>(a);
            // a failed compare-and-swap is a load; give it the latest value
            readFrom(l, (int) l.h.size() - 1, fmo);
        }
        *e = old;
        return 0;
    }
    if (simming() && g_weak) {
        Loc &l = locOf<T>(a);
        readFrom(l, (int) l.h.size() - 1, mo);
        *a = v;
        pushStore(l, bits<T>(v), mo, true);
    } else
        *a = v;
    return 1;
}
} // namespace

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define HERE __builtin_return_address(0)
#define RW(n) \
    void __tsan_read##n(void *a) { plainAccess(HERE, (uintptr_t) a); } \
    void __tsan_write##n(void *a) { plainWrite((uintptr_t) a, n, HERE); } \
    void __tsan_unaligned_read##n(void *a) { plainAccess(HERE, (uintptr_t) a); } \
    void __tsan_unaligned_write##n(void *a) { plainWrite((uintptr_t) a, n, HERE); } \
    void __tsan_volatile_read##n(void *a) { plainAccess(HERE, (uintptr_t) a); } \
    void __tsan_volatile_write##n(void *a) { plainWrite((uintptr_t) a, n, HERE); } \
    void __tsan_unaligned_volatile_read##n(void *a) { plainAccess(HERE, (uintptr_t) a); } \
    void __tsan_unaligned_volatile_write##n(void *a) { plainWrite((uintptr_t) a, n, HERE); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t) { plainAccess(HERE, (uintptr_t) a); }
void __tsan_write_range(void *a, size_t n) { plainWrite((uintptr_t) a, n, HERE); }
void __tsan_vptr_update(void **, void *) { plainAccess(); }
void __tsan_vptr_read(void **) { plainAccess(); }
#define ATOMICS(B, T) \
    T __tsan_atomic##B##_load(const volatile T *a, int mo) { return aLoad<T>((volatile T *) a, mo); } \
    void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { aStore<T>(a, v, mo); } \
    T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) \
    { \
        return aRmw<T>(a, mo, [&](T) { return v; }); \
    } \
    T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) \
    { \
        return aRmw<T>(a, mo, [&](T o) { return (T) (o + v); }); \
    } \
    T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) \
    { \
        return aRmw<T>(a, mo, [&](T o) { return (T) (o - v); }); \
    } \
    T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) \
    { \
        return aRmw<T>(a, mo, [&](T o) { return (T) (o & v); }); \
    } \
    T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) \
    { \
        return aRmw<T>(a, mo, [&](T o) { return (T) (o | v); }); \
    } \
    T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) \
    { \
        return aRmw<T>(a, mo, [&](T o) { return (T) (o ^ v); }); \
    } \
    T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int mo) \
    { \
        return aRmw<T>(a, mo, [&](T o) { return (T) ~(o & v); }); \
    } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int f) \
    { \
        return aCas<T>(a, c, v, mo, f, false); \
    } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int f) \
    { \
        return aCas<T>(a, c, v, mo, f, true); \
    } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int f) \
    { \
        aCas<T>(a, &c, v, mo, f, false); \
        return c; \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
// 16-byte atomics reach libatomic through these entry points when instrumented
void __tsan_atomic_thread_fence(int mo)
{
    visible();
    if (simming() && g_weak) {
        Th &t = g_thv[g_cur];
        if (isAcq(mo)) {
            t.vc.join(t.acqF);
        }
        if (mo == 5) {
            t.vc.join(g_scf);
            g_scf.join(t.vc);
        }
        if (isRel(mo)) {
            t.relF = t.vc;
            t.hasRelF = true;
        }
        bump(t);
    }
}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ memory
// Fresh memory holds garbage, freed memory holds garbage and, in half of the runs, is not used
// again: what is done to objects which are not there (any more) shows.
static void *simAlloc(size_t n, size_t al)
{
    void *p = al ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    if (g_active && g_fill >= 0)
        memset(p, g_fill, n);
    return p;
}
static void simFree(void *p)
{
    if (p && g_active && g_fill >= 0) {
        memset(p, 0xA5, malloc_usable_size(p));
        if (g_keepFreed)
            return;
    }
    free(p);
}
void *operator new(size_t n) { return simAlloc(n, 0); }
void *operator new[](size_t n) { return simAlloc(n, 0); }
void *operator new(size_t n, std::align_val_t a) { return simAlloc(n, (size_t) a); }
void *operator new[](size_t n, std::align_val_t a) { return simAlloc(n, (size_t) a); }
void operator delete(void *p) noexcept { simFree(p); }
void operator delete[](void *p) noexcept { simFree(p); }
void operator delete(void *p, size_t) noexcept { simFree(p); }
void operator delete[](void *p, size_t) noexcept { simFree(p); }
void operator delete(void *p, std::align_val_t) noexcept { simFree(p); }
void operator delete[](void *p, std::align_val_t) noexcept { simFree(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { simFree(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { simFree(p); }

// ------------------------------------------------------------------ API and driver
namespace ksim {
bool active() { return simming(); }
int tid() { return t_self ? t_self->id : -1; }
uint64_t rnd(uint64_t n) { return g_dr.below(n); }
bool chance(int p) { return (int) g_dr.below(100) < p; }
void point() { visible(); }
int64_t now() { return g_time; }
bool weak() { return g_weak; }
void noPreempt(bool on) { g_nopreempt += on ? 1 : -1; }
void log(const std::string &ev)
{
    if (!g_active)
        return;
    appendEv(ev.data(), ev.size());
    g_sinceLog = 0;
    g_plain = 0;
    if (g_steps < 40000)
        g_fair = false;
    g_thv[g_cur].spin = 0;
}
void finish() { finishRun(1); }
void impossible(const std::string &w) { log("\"e\":\"impossible\",\"w\":\"" + w + "\""); }
void prompt(bool on) { g_prompt = on; }
void setHorizon(int a, int f)
{
    g_adv = a;
    g_fairMax = f;
}
void payloadWrite(const void *addr, int64_t v)
{
    if (!simming() || !g_weak) {
        *(volatile int64_t *) addr = v;
        return;
    }
    Th &t = g_thv[g_cur];
    Pay &p = (*g_pay)[addr];
    Store s;
    if (p.h.empty() || (int64_t) p.h.back().val != *(volatile int64_t *) addr) {
        p = Pay();
        s.val = (uint64_t) * (volatile int64_t *) addr;
        s.tid = 0;
        s.ep = 0;
        p.h.push_back(s);
    }
    s.val = (uint64_t) v;
    s.tid = t.id;
    s.ep = t.vc.c[t.id];
    p.h.push_back(s);
    p.seen[t.id] = (int) p.h.size() - 1;
    *(volatile int64_t *) addr = v;
}
int64_t payloadRead(const void *addr)
{
    int64_t cur = *(volatile int64_t *) addr;
    if (!simming() || !g_weak)
        return cur;
    auto it = g_pay->find(addr);
    if (it == g_pay->end() || (int64_t) it->second.h.back().val != cur)
        return cur;
    Pay &p = it->second;
    Th &t = g_thv[g_cur];
    int last = (int) p.h.size() - 1, lb = p.seen[t.id];
    for (int i = last; i > lb; i--)
        if (p.h[i].ep <= t.vc.c[p.h[i].tid]) {
            lb = i;
            break;
        }
    int i = lb + (int) g_sr.below(last - lb + 1);
    p.seen[t.id] = i;
    return (int64_t) p.h[i].val;
}

namespace {
struct RunSpec
{
    uint64_t ds = 1, ss = 1;
    int mode = 0; // 0 random family, 1 systematic
    int weak = 0;
    bool probe = false;
    std::map<int, int> forced;
    std::string scen;
};
const std::function<void(const Params &)> *g_scn;
int g_weakPct = 0, g_spur = 0;

void childRun(const RunSpec &rs)
{
    alarm(30);
    mallopt(M_PERTURB, 0xA5);
    __libc_single_threaded = 0;
    g_mutex = new std::unordered_map<void *, MutexSt>;
    g_rw = new std::unordered_map<void *, RwSt>;
    g_loc = new std::unordered_map<uintptr_t, Loc>;
    g_pay = new std::unordered_map<const void *, Pay>;
    pthread_key_create(&g_key, threadDone);
    g_dr.seed(rs.ds);
    g_sr.seed(rs.ss * 7919 + 13);
    g_forced = rs.forced;
    uint64_t h = rs.ss * 0x9E3779B97F4A7C15ull >> 40;
    static const int fills[] = {0x5A, 0x00, 0xFF, 0x5A};
    g_fill = fills[h & 3];
    g_keepFreed = h & 4;
    if (rs.mode == 1) {
        g_mode = M_SYS;
        g_ptime = 0;
    } else {
        static const int psw[] = {30, 100, 250, 500};
        static const int ppl[] = {0, 0, 400, 60, 15};
        static const int pt[] = {2, 10, 40};
        g_mode = g_sr.below(3) == 0 ? M_PCT : M_RANDOM;
        g_psw = psw[g_sr.below(4)];
        g_pplain = ppl[g_sr.below(5)];
        g_plainCount = g_pplain ? 1 + (int) g_sr.below(2 * g_pplain) : 0;
        g_ptime = pt[g_sr.below(3)];
        g_pspur = g_spur && g_sr.below(2) ? 8 : 0;
        g_pcasfail = g_sr.below(2) ? 30 : 0;
        static const int horizons[] = {40, 150, 500, 1500};
        int k = horizons[g_sr.below(4)];
        int d = (int) g_sr.below(6);
        for (int i = 0; i < d; i++)
            g_change.push_back(g_sr.below(k));
        std::sort(g_change.rbegin(), g_change.rend());
        g_weak = rs.weak;
        static const int ph[] = {0, 0, 0, 100, 400, 900};
        g_hotP = ph[g_sr.below(6)];
        g_hotLeft = 20 + (int) g_sr.below(200);
        if (g_weak)
            g_pplain = g_hotP = 0;
        g_probe = rs.probe;
        if (g_probe) {
            g_hotP = 0;
            g_shadow = new std::unordered_map<uintptr_t, Shadow>;
            g_lockIdx = new std::unordered_map<void *, int>;
        }
    }
    Th &t = g_thv[0];
    t = Th();
    t.id = 0;
    t.prio = (int64_t) g_sr.below(1000000) + 1;
    t.vc.c[0] = 1;
    g_n = 1;
    g_cur = 0;
    g_time = 1000000;
    t_self = &t;
    g_active = true;
    Params p;
    p.seed = rs.ds;
    p.scen = rs.scen;
    (*g_scn)(p);
    log("\"e\":\"end\"");
    finishRun(1);
}

struct Result
{
    int status = 0;
    std::string ev;
    uint64_t steps = 0;
    int ndp = 0;
};

Result runOne(const RunSpec &rs)
{
    shm->status = 0;
    shm->len = 0;
    shm->ndp = 0;
    shm->steps = 0;
    shm->switches = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0)
        die("fork failed");
    if (pid == 0)
        childRun(rs);
    int ws = 0;
    while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {
    }
    Result r;
    if (WIFSIGNALED(ws)) {
        char b[80];
        int sig = WTERMSIG(ws);
        snprintf(b, sizeof b, "\"e\":\"%s\",\"sig\":%d", sig == SIGALRM ? "hang" : "crash", sig);
        appendEv(b, strlen(b));
        r.status = sig == SIGALRM ? 4 : 3;
    } else if (WIFEXITED(ws) && WEXITSTATUS(ws) != 0) {
        if (WEXITSTATUS(ws) == 70)
            die("harness failure in a run");
        char b[80];
        snprintf(b, sizeof b, "\"e\":\"crash\",\"exit\":%d", WEXITSTATUS(ws));
        appendEv(b, strlen(b));
        r.status = 3;
    } else
        r.status = shm->status;
    r.ev.assign(shm->buf, shm->len);
    for (char &c : r.ev) // a run that corrupts memory may leave anything in its log
        if ((unsigned char) c < 0x20)
            c = '?';
    r.steps = shm->steps;
    r.ndp = std::min((int) shm->ndp, MAXDP);
    return r;
}
double wall()
{
    timespec t;
    rawsys(SYS_clock_gettime, CLOCK_MONOTONIC, (long) &t);
    return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec;
}
} // namespace

int driverMain(int argc, char **argv, const std::function<void(const Params &)> &scenario)
{
    std::string scen = "main", out = "/dev/stdout", mode = "random", forced;
    uint64_t seed = 1, runs = 100, part = 0, parts = 1, ds = 0, spd = 4;
    int pb = 2, cpu = -1, isWeak = -1;
    double maxsec = 1e9;
    uint64_t maxdistinct = 1u << 30;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--scen") scen = v;
        else if (k == "--out") out = v;
        else if (k == "--mode") mode = v;
        else if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--runs") runs = strtoull(v.c_str(), 0, 10);
        else if (k == "--part") part = strtoull(v.c_str(), 0, 10);
        else if (k == "--parts") parts = strtoull(v.c_str(), 0, 10);
        else if (k == "--spd") spd = strtoull(v.c_str(), 0, 10);
        else if (k == "--pb") pb = atoi(v.c_str());
        else if (k == "--ds") ds = strtoull(v.c_str(), 0, 10);
        else if (k == "--cpu") cpu = atoi(v.c_str());
        else if (k == "--maxsec") maxsec = atof(v.c_str());
        else if (k == "--maxdistinct") maxdistinct = strtoull(v.c_str(), 0, 10);
        else if (k == "--weakpct") g_weakPct = atoi(v.c_str());
        else if (k == "--weak") isWeak = atoi(v.c_str());
        else if (k == "--spur") g_spur = atoi(v.c_str());
        else if (k == "--forced") forced = v;
        else {
            fprintf(stderr, "unknown option %s\n", k.c_str());
            return 2;
        }
    }
    if (cpu >= 0) {
        cpu_set_t all, one;
        if (sched_getaffinity(0, sizeof all, &all) == 0) {
            std::vector<int> ids;
            for (int i = 0; i < CPU_SETSIZE; i++)
                if (CPU_ISSET(i, &all))
                    ids.push_back(i);
            if (!ids.empty()) {
                CPU_ZERO(&one);
                CPU_SET(ids[cpu % ids.size()], &one);
                sched_setaffinity(0, sizeof one, &one);
            }
        }
    }
    shm = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED)
        die("mmap");
    // resolve the real functions before any run
    g_scn = &scenario;
    FILE *f = fopen(out.c_str(), "w");
    if (!f)
        die("cannot open the output");
    std::unordered_set<size_t> seen;
    uint64_t nruns = 0, nstuck = 0, ncrash = 0, nweak = 0, steps = 0, nsw = 0;
    double t0 = wall();
    bool complete = true;
    auto emit = [&](const RunSpec &rs, const Result &r) {
        nruns++;
        steps += r.steps;
        nsw += shm->switches;
        if (rs.weak)
            nweak++;
        if (r.status == 2)
            nstuck++;
        if (r.status == 3 || r.status == 4)
            ncrash++;
        if (!seen.insert(std::hash<std::string>()(r.ev)).second)
            return;
        std::string fl;
        for (auto &x : rs.forced)
            fl += (fl.empty() ? "" : ",") + std::to_string(x.first) + ":" + std::to_string(x.second);
        fprintf(f,
                "{\"scen\":\"%s\",\"ds\":%llu,\"ss\":%llu,\"mode\":%d,\"weak\":%d,\"forced\":\"%s\","
                "\"status\":%d,\"ev\":[%s]}\n",
                rs.scen.c_str(), (unsigned long long) rs.ds, (unsigned long long) rs.ss, rs.mode,
                rs.weak, fl.c_str(), r.status, r.ev.c_str());
    };
    auto over = [&] { return wall() - t0 > maxsec || seen.size() >= maxdistinct; };
    auto parseForced = [&] {
        std::map<int, int> m;
        size_t i = 0;
        while (i < forced.size()) {
            int a = 0, b = 0, n = 0;
            if (sscanf(forced.c_str() + i, "%d:%d%n", &a, &b, &n) != 2)
                break;
            m[a] = b;
            i += n + 1;
        }
        return m;
    };
    if (mode != "systematic") // the same ones for the same program and scenario
        for (uint64_t i = 0; i < 60; i++) {
            RunSpec rs;
            rs.scen = scen;
            rs.ds = 77 + i;
            rs.ss = 991 + i;
            rs.probe = true;
            runOne(rs);
            if (getenv("KSIM_PROBE"))
                fprintf(stderr, "probe %llu: status %d\n", (unsigned long long) i, shm->status);
        }
    if (mode == "one") {
        RunSpec rs;
        rs.scen = scen;
        rs.ds = ds;
        rs.ss = seed;
        rs.mode = forced.empty() ? 0 : 1;
        if (forced == "-")
            forced.clear();
        rs.weak = isWeak > 0;
        rs.forced = parseForced();
        emit(rs, runOne(rs));
    } else if (mode == "random") {
        for (uint64_t i = part; i < runs && !over(); i += parts) {
            RunSpec rs;
            rs.scen = scen;
            rs.ss = seed * 1000003ull + i;
            // a few schedules per data seed
            rs.ds = ds ? ds : seed * 1000003ull + i / (spd * parts) * parts + part;
            rs.weak = (int) ((rs.ss * 2654435761ull >> 7) % 100) < g_weakPct;
            emit(rs, runOne(rs));
        }
    } else { // systematic: all schedules with at most pb preemptions from the default one
        uint64_t d0 = ds ? ds : seed;
        struct Item
        {
            std::map<int, int> forced;
            int last;
        };
        std::deque<Item> q;
        RunSpec rs;
        rs.scen = scen;
        rs.ds = d0;
        rs.ss = 1;
        rs.mode = 1;
        Rng sh(seed + part);
        auto expand = [&](const Item &it, const Result &, bool split) {
            if ((int) it.forced.size() >= pb)
                return;
            int n = std::min((int) shm->ndp, MAXDP);
            std::vector<Item> xs;
            int k = 0;
            for (int i = it.last + 1; i < n; i++) {
                for (int t = 0; t < 32; t++) {
                    if (!(shm->dpmask[i] & (1u << t)) || t == shm->dpcur[i])
                        continue;
                    if (split && (uint64_t) (k++) % parts != part)
                        continue;
                    Item y = it;
                    y.forced[i] = t;
                    y.last = i;
                    xs.push_back(y);
                }
            }
            for (size_t i = xs.size(); i > 1; i--)
                std::swap(xs[i - 1], xs[sh.below(i)]);
            for (auto &x : xs)
                q.push_back(x);
        };
        Item root{{}, -1};
        Result r = runOne(rs);
        emit(rs, r);
        expand(root, r, true);
        while (!q.empty()) {
            if (over() || nruns >= runs) {
                complete = false;
                break;
            }
            Item it;
            // breadth first keeps the low preemption counts complete
            it = q.front();
            q.pop_front();
            rs.forced = it.forced;
            r = runOne(rs);
            emit(rs, r);
            expand(it, r, false);
        }
    }
    fclose(f);
    fprintf(stderr,
            "{\"runs\":%llu,\"distinct\":%zu,\"stuck\":%llu,\"crash\":%llu,\"weak\":%llu,\"steps\":%llu,"
            "\"switches\":%llu,\"complete\":%s,\"sec\":%.2f}\n",
            (unsigned long long) nruns, seen.size(), (unsigned long long) nstuck,
            (unsigned long long) ncrash, (unsigned long long) nweak, (unsigned long long) steps,
            (unsigned long long) nsw, complete ? "true" : "false", wall() - t0);
    return 0;
}
} // namespace ksim
