// See vrt.h.  This file is compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vrt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <climits>
#include <new>
#include <vector>
#include <map>
#include <string>
#include <unordered_map>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/resource.h>

extern "C" char __executable_start, etext;
namespace vrt {

// The containers of the runtime stay out of the arena given to the code under test
template<typename T> struct MA {
    using value_type = T;
    MA() {}
    template<typename U> MA(const MA<U> &) {}
    T *allocate(size_t n) { void *p = malloc(n * sizeof(T)); if (!p) abort(); return (T *)p; }
    void deallocate(T *p, size_t) { free(p); }
    template<typename U> bool operator==(const MA<U> &) const { return true; }
    template<typename U> bool operator!=(const MA<U> &) const { return false; }
};
template<typename T> using vec = std::vector<T, MA<T>>;
template<typename V> using umap = std::unordered_map<uintptr_t, V, std::hash<uintptr_t>, std::equal_to<uintptr_t>, MA<std::pair<const uintptr_t, V>>>;
using str = std::basic_string<char, std::char_traits<char>, MA<char>>;
template<typename T, typename... A> static T *mk(A &&...a) { return new (malloc(sizeof(T))) T(std::forward<A>(a)...); }

// ------------------------------------------------------------------ state
static const int MAXT = 32;
static const size_t STACKSZ = 512 * 1024;

int races = 0, uafs = 0;
void (*on_abort)(const char *) = nullptr;
void (*on_fault)(const char *, const char *, const void *, const void *) = nullptr;
void (*on_setname)(int, const char *) = nullptr;
void (*on_refused)(int) = nullptr;

struct VC { uint32_t c[MAXT]; };
static inline void vc_join(VC &a, const VC &b, int n) { for (int i = 0; i < n; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

enum St { UNUSED, RUNNABLE, BLOCKED, DONE };
struct Thr {
    St          st;
    const void *obj;        // what it blocks on
    bool        timed;      // has a deadline
    uint64_t    deadline;
    bool        timedOut;
    bool        quiesce;
    bool        yielded;
    int         baton;      // futex
    pthread_t   real;
    bool        joined, detached, realJoined;
    void     *(*fn)(void *);
    void       *arg;
    void       *ret;
    VC          vc;
    VC          fenceRel; bool hasFenceRel;
    VC          acqPend;  bool hasAcqPend;
    int         prio;       // PCT
    int         noArena;
    uint32_t    cores;      // what the system knows of the thread: the cores it may run on,
    int         sysPrio;    // its realtime priority (0: none),
    size_t      stack;      // the size of stack asked for (0: none)
};
static Thr T[MAXT];
static int nT = 0;
static int cur = -1;
static bool g_active = false;
static Config C;
static uint64_t g_now;
static uint64_t rs;
static int nsteps;
static bool fairMode;
static int fairNext;
static vec<Decision> *decs;
static int scriptPos;
static thread_local int my_tid = -1;
// the system: cores, highest realtime priority allowed (-1: not modelled), chance that a thread is refused
static const int CORES = 8;
static int rtLimit = -1, refuse = 0;
static size_t defaultStack;
static char *stacks;
static int pctPoints[16]; static int nPct; static int pctLow;

static const int LOGMAX = 1 << 21;
static char *logbuf; static int loglen;
static char *hbbuf; static int hblen;
static const int HBMAX = 1 << 23;

static uint64_t rnd64() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
uint64_t rnd(uint64_t n) { return n ? (rnd64() >> 11) % n : 0; }

static inline bool ctl() { return g_active && my_tid >= 0; }
bool active() { return g_active; }
int tid() { return my_tid; }
int threads() { return nT; }
uint64_t now() { return g_now; }
bool strict_time();
int steps() { return nsteps; }

// ------------------------------------------------------------------ real functions
template<typename F> static F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(ret, name, ...) static ret (*p)(__VA_ARGS__) = nullptr; if (!p) p = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

// ------------------------------------------------------------------ log
void log(const char *fmt, ...)
{
    if (loglen > LOGMAX - 4096) return;
    va_list ap; va_start(ap, fmt);
    loglen += vsnprintf(logbuf + loglen, 2048, fmt, ap);
    va_end(ap);
}
const char *trace() { logbuf[loglen] = 0; return logbuf; }
size_t trace_len() { return loglen; }
const char *hb_trace() { hbbuf[hblen] = 0; return hbbuf; }
static void hblog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void hblog(const char *fmt, ...)
{
    if (!C.hbLog || hblen > HBMAX - 4096) return;
    va_list ap; va_start(ap, fmt);
    hblen += vsnprintf(hbbuf + hblen, 1024, fmt, ap);
    va_end(ap);
}
const Decision *decisions(int &n) { n = (int)decs->size(); return decs->data(); }

// ------------------------------------------------------------------ batons
bool strict_time() { return C.timerPermille == 0; }
static void futex_wait(int *p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(int *p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void baton_wait(int t)
{
    while (__atomic_load_n(&T[t].baton, __ATOMIC_ACQUIRE) == 0) futex_wait(&T[t].baton, 0);
    __atomic_store_n(&T[t].baton, 0, __ATOMIC_RELAXED);
}
static void baton_give(int t)
{
    __atomic_store_n(&T[t].baton, 1, __ATOMIC_RELEASE);
    futex_wake(&T[t].baton);
}
static void abort_run(const char *kind)
{
    if (on_abort) on_abort(kind);
    _exit(99);
}

// ------------------------------------------------------------------ scheduling
static uint32_t runnable_mask()
{
    uint32_t m = 0;
    for (int i = 0; i < nT; ++i) if (T[i].st == RUNNABLE) m |= 1u << i;
    return m;
}
int runnable_others()
{
    uint32_t m = runnable_mask();
    if (my_tid >= 0) m &= ~(1u << my_tid);
    return __builtin_popcount(m);
}
int live_threads()
{
    int n = 0;
    for (int i = 0; i < nT; ++i) if (i != my_tid && (T[i].st == RUNNABLE || T[i].st == BLOCKED)) ++n;
    return n;
}
static void fire_timer(int t)
{
    if (T[t].deadline > g_now) g_now = T[t].deadline;
    T[t].st = RUNNABLE; T[t].timedOut = true; T[t].timed = false; T[t].obj = nullptr;
}
static int earliest_timer()
{
    int b = -1;
    for (int i = 0; i < nT; ++i)
        if (T[i].st == BLOCKED && T[i].timed && (b < 0 || T[i].deadline < T[b].deadline)) b = i;
    return b;
}
static int nth_bit(uint32_t m, int k) { for (int i = 0; i < MAXT; ++i) if (m >> i & 1) { if (k-- == 0) return i; } return -1; }

// A schedule given by the specification: the tracked accesses in their order (thread * 16 + kind).  A thread
// about to make one waits for its turn.  When the code does something else, the schedule is left for good.
static bool guiding; static int guidePos; static uint32_t guideParked; static const char *guideLo, *guideHi;
static void pick_and_switch(bool selfAlive);
static void guide_leave() { guiding = false; }
void guide_start(const void *lo, size_t n) { guideLo = (const char *)lo; guideHi = guideLo + n; guiding = C.guide && C.guideLen > 0; guidePos = 0; guideParked = 0; }
int  guide_followed() { return C.guide ? guidePos : 0; }
static void gate_on(int kind, pthread_mutex_t *m, bool (*held)(pthread_mutex_t *))
{
    while (guiding && ctl())
    {
        if (guidePos >= C.guideLen) { guide_leave(); return; }
        const int s = C.guide[guidePos];
        if (s / 16 == my_tid)
        {
            if (m && held(m)) return;       // its holder has to leave first
            if (s % 16 == kind) ++guidePos; else { if (C.guideLog) log("[\"GUIDE\",%d,%d,%d,%d],", my_tid, guidePos, s % 16, kind); guide_leave(); }
            return;
        }
        guideParked |= 1u << my_tid;
        pick_and_switch(true);
        guideParked &= ~(1u << my_tid);
    }
}
void gate(int kind) { gate_on(kind, nullptr, nullptr); }
static int choose(uint32_t m)
{
    // m: runnable threads, non empty
    const bool curRun = cur >= 0 && (m >> cur & 1);
    const int n = __builtin_popcount(m);
    int pick = -1;
    if (guiding)
    {
        if (guidePos >= C.guideLen) guide_leave();
        else
        {
            const int t = C.guide[guidePos] / 16;
            if (t < MAXT && (m >> t & 1)) return t;
            const uint32_t mm = m & ~guideParked;
            if (mm) return curRun && (mm >> cur & 1) ? cur : __builtin_ctz(mm);
            if (C.guideLog) log("[\"GUIDE\",%d,%d,%d,%d],", my_tid, guidePos, C.guide[guidePos], -1);
            guide_leave();
        }
    }
    if (n == 1) return __builtin_ctz(m);
    if (fairMode)
    {
        for (int k = 1; k <= MAXT; ++k) { int i = (fairNext + k) % MAXT; if (m >> i & 1) { pick = i; break; } }
        if (nsteps % 4 == 0 || !curRun) fairNext = pick; else if (curRun) pick = cur;
    }
    else if (C.script && scriptPos < C.scriptLen)
    {
        int s = C.script[scriptPos++];
        if (s < MAXT && (m >> s & 1)) pick = s;
        else pick = curRun ? cur : (int)__builtin_ctz(m);
    }
    else if (C.strategy == REPLAY || C.strategy == DFS)
    {
        if (curRun && !T[cur].yielded) pick = cur;
        else
        {
            // lowest id after the current one
            for (int k = 1; k <= MAXT; ++k) { int i = (cur + k) % MAXT; if (m >> i & 1) { pick = i; break; } }
        }
    }
    else if (C.strategy == PCT)
    {
        if (curRun && T[cur].yielded) T[cur].prio = --pctLow;
        for (int i = 0; i < nT; ++i) if ((m >> i & 1) && (pick < 0 || T[i].prio > T[pick].prio)) pick = i;
    }
    else
    {
        if (curRun && !T[cur].yielded && (int)rnd(1000) >= C.rwPermille) pick = cur;
        else if (curRun && T[cur].yielded) { uint32_t mm = m & ~(1u << cur); pick = nth_bit(mm, (int)rnd(n - 1)); }
        else pick = nth_bit(m, (int)rnd(n));
    }
    Decision d; d.cands = m; d.chosen = (uint8_t)pick; d.cur = (uint8_t)(cur < 0 ? 255 : cur); d.curRunnable = curRun && !T[cur].yielded;
    decs->push_back(d);
    return pick;
}
static void pick_and_switch(bool selfAlive)
{
    // Called by the thread holding the baton; picks the next one and hands the baton over.
    uint32_t m = runnable_mask();
    if (m && C.timerPermille && (int)rnd(1000) < C.timerPermille)
    {
        int t = earliest_timer();
        if (t >= 0) { fire_timer(t); m = runnable_mask(); }
    }
    while (!m)
    {
        int t = earliest_timer();
        if (t >= 0) { fire_timer(t); m = runnable_mask(); continue; }
        bool q = false;
        for (int i = 0; i < nT; ++i)
            if (T[i].st == BLOCKED && T[i].quiesce) { T[i].quiesce = false; T[i].st = RUNNABLE; q = true; break; }
        if (q) { m = runnable_mask(); continue; }
        abort_run("stuck");
    }
    int next = choose(m);
    if (cur >= 0) T[cur].yielded = false;
    const int self = my_tid;
    if (next == self && selfAlive) { cur = next; return; }
    cur = next;
    baton_give(next);
    if (selfAlive) baton_wait(self);
}
static void step()
{
    ++nsteps;
    g_now += 20 + (rs >> 60);
    if (nsteps > C.stepLimit)
    {
        if (!fairMode) { fairMode = true; fairNext = cur; C.stepLimit += 200000; }
        else abort_run("livelock");
    }
    if (C.strategy == PCT)
        for (int i = 0; i < nPct; ++i) if (pctPoints[i] == nsteps && cur >= 0) T[cur].prio = -(100 + i);
}
void point()
{
    if (!ctl()) return;
    step();
    if (nT > 1) pick_and_switch(true);
}
void user_point() { if (C.strategy == RW || C.strategy == PCT) point(); }
static void block(const void *obj, bool timed = false, uint64_t deadline = 0)
{
    Thr &t = T[my_tid];
    if (timed && deadline > g_now && deadline - g_now > 1000000000ull * 86400 * 365 * 50) timed = false;   // as good as never
    t.st = BLOCKED; t.obj = obj; t.timed = timed; t.deadline = deadline; t.timedOut = false;
    ++nsteps;
    if (nsteps > C.stepLimit) step();
    pick_and_switch(true);
    t.obj = nullptr; t.timed = false;
}
static void wake_all(const void *obj)
{
    for (int i = 0; i < nT; ++i)
        if (T[i].st == BLOCKED && T[i].obj == obj && obj) { T[i].st = RUNNABLE; T[i].timed = false; T[i].timedOut = false; }
}
void block_on(const void *obj) { if (ctl()) block(obj); }
void wake(const void *obj) { if (ctl()) wake_all(obj); }
bool quiesce()
{
    if (!ctl()) return true;
    Thr &t = T[my_tid];
    t.quiesce = true;
    block(nullptr);
    return true;
}

// ------------------------------------------------------------------ happens-before
static bool hbOn() { return C.hb; }
// the caller is ordered after everything done so far
void order_after_all() { if (ctl() && hbOn()) { for (int i = 0; i < nT; ++i) vc_join(T[my_tid].vc, T[i].vc, nT); if (C.hbLog) hblog("[\"O\",%d,0],", my_tid); } }
static inline uint32_t &clk(int t) { return T[t].vc.c[t]; }

struct SyncObj { VC vc; bool has; };
static umap<SyncObj> *syncs;
static umap<int> *hbIds;
static int hbid(const void *p) { auto it = hbIds->find((uintptr_t)p); if (it != hbIds->end()) return it->second; int id = (int)hbIds->size() + 1; (*hbIds)[(uintptr_t)p] = id; return id; }

static void hb_acquire(const void *o)
{
    if (!hbOn()) return;
    auto it = syncs->find((uintptr_t)o);
    if (it != syncs->end() && it->second.has) vc_join(T[my_tid].vc, it->second.vc, nT);
    if (C.hbLog) hblog("[\"A\",%d,%d],", my_tid, hbid(o));
}
static void hb_release(const void *o, bool replace = false)
{
    if (!hbOn()) return;
    SyncObj &s = (*syncs)[(uintptr_t)o];
    if (replace || !s.has) { s.vc = T[my_tid].vc; s.has = true; } else vc_join(s.vc, T[my_tid].vc, nT);
    ++clk(my_tid);
    if (C.hbLog) hblog("[\"%s\",%d,%d],", replace ? "RS" : "R", my_tid, hbid(o));
}
// memory orders as passed by the instrumentation: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void hb_atomic_load(const void *o, int mo)
{
    if (!hbOn()) return;
    if (isAcq(mo)) hb_acquire(o);
    else
    {
        auto it = syncs->find((uintptr_t)o);
        if (it != syncs->end() && it->second.has) { Thr &t = T[my_tid]; if (!t.hasAcqPend) { memset(&t.acqPend, 0, sizeof t.acqPend); t.hasAcqPend = true; } vc_join(t.acqPend, it->second.vc, nT); }
        if (C.hbLog) hblog("[\"LX\",%d,%d],", my_tid, hbid(o));
    }
}
static void hb_atomic_store(const void *o, int mo)
{
    if (!hbOn()) return;
    if (isRel(mo)) hb_release(o, true);
    else
    {
        SyncObj &s = (*syncs)[(uintptr_t)o];
        if (T[my_tid].hasFenceRel) { s.vc = T[my_tid].fenceRel; s.has = true; } else s.has = false;
        if (C.hbLog) hblog("[\"SX\",%d,%d],", my_tid, hbid(o));
    }
}
static void hb_atomic_rmw(const void *o, int mo)
{
    if (!hbOn()) return;
    if (isAcq(mo)) hb_acquire(o);
    else hb_atomic_load(o, 0);
    if (isRel(mo)) hb_release(o, false);
    else if (T[my_tid].hasFenceRel) { SyncObj &s = (*syncs)[(uintptr_t)o]; if (!s.has) { s.vc = T[my_tid].fenceRel; s.has = true; } else vc_join(s.vc, T[my_tid].fenceRel, nT); if (C.hbLog) hblog("[\"SF\",%d,%d],", my_tid, hbid(o)); }
    // a relaxed RMW continues the release sequence: nothing to do
}
static void hb_fence(int mo)
{
    if (!hbOn()) return;
    Thr &t = T[my_tid];
    if (isAcq(mo) && t.hasAcqPend) vc_join(t.vc, t.acqPend, nT);
    if (isRel(mo)) { t.fenceRel = t.vc; t.hasFenceRel = true; ++clk(my_tid); }
    if (C.hbLog) hblog("[\"F%s%s\",%d,0],", isAcq(mo) ? "A" : "", isRel(mo) ? "R" : "", my_tid);
}

// ------------------------------------------------------------------ arena
static const size_t ARENA = 64u << 20;
static char *arena; static size_t arenaPos;
static int nBlocks;
int live_blocks() { return nBlocks; }
static unsigned char *ashadow;  // per 16 bytes: 0 never, 1 live, 2 freed
static bool inArena(const void *p) { return (char *)p >= arena && (char *)p < arena + ARENA; }
struct Region { uintptr_t a, b; const char *tag; };
static vec<Region> *regions;
void data_region(const void *p, size_t n, const char *tag) { regions->push_back({(uintptr_t)p, (uintptr_t)p + n, tag}); }
static const char *tagOf(const void *p)
{
    for (auto &r : *regions) if ((uintptr_t)p >= r.a && (uintptr_t)p < r.b) return r.tag;
    return "lib";
}
static void fault(const char *kind, const void *addr, const void *pc1, const void *pc2)
{
    if (!strcmp(kind, "race")) ++races; else ++uafs;
    if (on_fault) on_fault(kind, tagOf(addr), pc1, pc2);
}

// ------------------------------------------------------------------ shadow of plain accesses
struct RdEnt { uint8_t t; uint8_t mask; uint32_t c; const void *pc; };
struct Cell {
    uintptr_t key; uint32_t gen;
    uint8_t   reported;
    uint8_t   wt[8]; uint32_t wc[8]; const void *wpc; uint8_t wmask;
    uint8_t   nr; RdEnt rd[12];
};
static const uint32_t NCELL = 1u << 17;
static Cell *cells; static uint32_t cgen = 0; static uint32_t ncells;
static Cell *cell(uintptr_t g)
{
    uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 40) & (NCELL - 1);
    for (uint32_t k = 0; k < 64; ++k)
    {
        Cell &c = cells[(h + k) & (NCELL - 1)];
        if (c.gen != cgen) { c.gen = cgen; c.key = g; c.reported = 0; c.wmask = 0; c.nr = 0; ++ncells; return &c; }
        if (c.key == g) return &c;
    }
    return nullptr;
}
static char *stackLo(int t) { return stacks + (size_t)t * STACKSZ; }
static uintptr_t mainStackHi;
static void access(uintptr_t a, size_t n, bool wr, const void *pc, bool isAtomic = false)
{
    if (!ctl()) return;
    const int t = my_tid;
    // own stack, close to the top of the stack: private unless another thread got a reference
    if (inArena((void *)a) && ashadow[(a - (uintptr_t)arena) >> 4] == 2) { fault("uaf", (void *)a, pc, nullptr); }
    if (!hbOn()) return;
    uintptr_t end = a + n;
    for (uintptr_t g = a >> 3; g <= (end - 1) >> 3; ++g)
    {
        uintptr_t lo = g << 3;
        int b0 = a > lo ? int(a - lo) : 0, b1 = end < lo + 8 ? int(end - lo) : 8;
        uint8_t mask = (uint8_t)(((1u << (b1 - b0)) - 1) << b0);
        Cell *c = cell(g);
        if (!c) return;
        const uint32_t my = clk(t);
        // conflict with writes
        bool race = false; const void *opc = nullptr;
        for (int b = b0; b < b1; ++b)
            if (c->wmask >> b & 1)
            {
                int ot = c->wt[b] & 31; bool oatomic = c->wt[b] & 64;
                if (ot != t && c->wc[b] > T[t].vc.c[ot] && !(isAtomic && oatomic)) { race = true; opc = c->wpc; break; }
            }
        if (wr && !race)
            for (int i = 0; i < c->nr; ++i)
            {
                RdEnt &r = c->rd[i];
                int ot = r.t & 31; bool oatomic = r.t & 64;
                if ((r.mask & mask) && ot != t && r.c > T[t].vc.c[ot] && !(isAtomic && oatomic)) { race = true; opc = r.pc; break; }
            }
        if (C.hbLog) { hblog("[\"%s\",%d,%d,%d],", wr ? (isAtomic ? "AW" : "W") : (isAtomic ? "AD" : "D"), t, hbid((void *)g), (int)mask); }
        if (race && !c->reported) { c->reported = 1; fault("race", (void *)a, pc, opc); }
        uint8_t tt = (uint8_t)(t | (isAtomic ? 64 : 0));
        if (wr)
        {
            for (int b = b0; b < b1; ++b) { c->wt[b] = tt; c->wc[b] = my; }
            c->wmask |= mask; c->wpc = pc;
            int k = 0;
            for (int i = 0; i < c->nr; ++i) { c->rd[i].mask &= ~mask; if (c->rd[i].mask) c->rd[k++] = c->rd[i]; }
            c->nr = (uint8_t)k;
        }
        else
        {
            bool done = false;
            for (int i = 0; i < c->nr && !done; ++i)
            {
                RdEnt &r = c->rd[i];
                if (r.t == tt && (r.mask == mask || r.c == my)) { r.mask |= mask; r.c = my; r.pc = pc; done = true; }
            }
            if (!done && c->nr < 12) { RdEnt &r = c->rd[c->nr++]; r.t = tt; r.mask = mask; r.c = my; r.pc = pc; }
        }
    }
}
static bool privateStack(uintptr_t a)
{
    // current thread's own stack below (younger than) the frame of the caller chain is private,
    // but references into it may have been given away: we only skip what is in the last page.
    return false;
}
static void plain(uintptr_t a, size_t n, bool wr, const void *pc)
{
    if (!ctl()) return;
    if (C.finePermille && (int)rnd(1000) < C.finePermille)
    {
        // skip own stack
        char *lo = stackLo(my_tid);
        if (!((char *)a >= lo && (char *)a < lo + STACKSZ)) point();
    }
    access(a, n, wr, pc);
}

// ------------------------------------------------------------------ kernel objects
struct Sem { int64_t value; bool named; };
static umap<Sem> *sems;
struct NamedSem { sem_t *addr; int refs; bool linked; str name; };
static vec<NamedSem *> *named;
struct Mtx { int owner; int rec; int readers; };
static umap<Mtx> *mtxs;
static umap<int> *onces;

static void reset_tables()
{
    syncs->clear(); hbIds->clear(); sems->clear(); mtxs->clear(); onces->clear(); regions->clear();
    for (auto *n : *named) { free(n->addr); n->~NamedSem(); free(n); }
    named->clear();
}

void init()
{
    logbuf = (char *)malloc(LOGMAX + 4096);
    hbbuf  = (char *)malloc(HBMAX + 4096);
    decs = mk<vec<Decision>>();
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_getstacksize(&a, &defaultStack); pthread_attr_destroy(&a);
    syncs = mk<umap<SyncObj>>(); hbIds = mk<umap<int>>();
    sems = mk<umap<Sem>>(); named = mk<vec<NamedSem *>>();
    mtxs = mk<umap<Mtx>>(); onces = mk<umap<int>>();
    regions = mk<vec<Region>>();
    arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ashadow = (unsigned char *)mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    stacks = (char *)mmap(nullptr, STACKSZ * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cells = (Cell *)mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

void run_begin(const Config &cfg)
{
    C = cfg;
    rs = cfg.seed * 0x9E3779B97F4A7C15ull + 0x1234567; if (!rs) rs = 1;
    for (int i = 0; i < 8; ++i) rnd64();
    memset(T, 0, sizeof T);
    nT = 1; cur = 0; nsteps = 0; fairMode = false; scriptPos = 0; decs->clear();
    loglen = 0; hblen = 0; races = uafs = 0; guiding = false; guidePos = 0;
    g_now = cfg.startTime;
    reset_tables();
    ++cgen; ncells = 0;
    memset(ashadow, 0, (arenaPos >> 4) + 16 < ARENA / 16 ? (arenaPos >> 4) + 16 : ARENA / 16);
    arenaPos = 64; nBlocks = 0;
    pctLow = 0; nPct = 0;
    if (C.strategy == PCT)
    {
        nPct = C.pctDepth - 1; if (nPct > 16) nPct = 16; if (nPct < 0) nPct = 0;
        for (int i = 0; i < nPct; ++i) pctPoints[i] = 1 + (int)rnd(C.pctLen);
    }
    my_tid = 0;
    T[0].st = RUNNABLE; T[0].real = pthread_self(); T[0].vc.c[0] = 1; T[0].prio = 1000 + (int)rnd(100000);
    T[0].joined = T[0].realJoined = true;
    T[0].cores = (1u << CORES) - 1;
    rtLimit = -1; refuse = 0;
    g_active = true;
}
void run_end()
{
    // All the other threads must be done
    g_active = false;
    REAL(int, pthread_join, pthread_t, void **)
    for (int i = 1; i < nT; ++i)
        if (T[i].st == DONE && !T[i].realJoined) { T[i].realJoined = true; p(T[i].real, nullptr); }
    for (int i = 1; i < nT; ++i) if (T[i].st != DONE && T[i].st != UNUSED) { g_active = true; abort_run("threads-left"); }
    my_tid = -1;
}
NoArena::NoArena() { if (my_tid >= 0) ++T[my_tid].noArena; }
NoArena::~NoArena() { if (my_tid >= 0) --T[my_tid].noArena; }

static void *arena_alloc(size_t n)
{
    size_t m = (n + 31) & ~size_t(15);  // at least one granule of redzone
    if (arenaPos + m > ARENA) return nullptr;
    char *p = arena + arenaPos; arenaPos += m;
    size_t g0 = (p - arena) >> 4, gn = (n + 15) >> 4; if (!gn) gn = 1;
    memset(ashadow + g0, 1, gn);
    ++nBlocks;
    // header-less: the size is recovered from the shadow (block = run of live granules followed by a 0)
    memset(p, 0xcd, n);
    if (C.hbLog && hbOn()) hblog("[\"N\",%d,%d,%d],", my_tid, 0, 0);
    return p;
}
static void arena_free(void *p, const void *pc)
{
    size_t g = ((char *)p - arena) >> 4;
    if (ashadow[g] != 1) { if (ctl()) fault("uaf", p, pc, nullptr); return; }
    size_t e = g; while (ashadow[e] == 1) ++e;
    // freeing conflicts with any concurrent access of the block
    if (ctl() && hbOn())
    {
        size_t bytes = (e - g) * 16;
        for (uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + bytes; a += 8)
        {
            uint32_t h = (uint32_t)(((a >> 3) * 0x9E3779B97F4A7C15ull) >> 40) & (NCELL - 1);
            bool present = false;
            for (uint32_t k = 0; k < 64; ++k) { Cell &c = cells[(h + k) & (NCELL - 1)]; if (c.gen != cgen) break; if (c.key == (a >> 3)) { present = true; break; } }
            if (present) access(a, 8, true, pc);
        }
    }
    memset(ashadow + g, 2, e - g);
    --nBlocks;
}
int live_sems()
{
    int n = 0;
    for (auto &s : *sems) if (!s.second.named) ++n;
    for (auto *x : *named) n += x->refs;
    return n;
}
int linked_names() { int n = 0; for (auto *x : *named) n += x->linked; return n; }
void system_limits(int rt, int refusePermille) { rtLimit = rt; refuse = refusePermille; }
bool thread_system(int t, uint32_t &cores, int &prio, size_t &stack)
{
    if (t < 0 || t >= nT) return false;
    cores = T[t].cores; prio = T[t].sysPrio; stack = T[t].stack;
    return true;
}
} // namespace vrt
using namespace vrt;

// ------------------------------------------------------------------ operator new / delete
static void *xnew(size_t n)
{
    if (ctl() && !T[my_tid].noArena) { void *p = arena_alloc(n ? n : 1); if (p) return p; }
    void *p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
static void xdel(void *p, const void *pc) { if (!p) return; if (inArena(p)) { if (g_active) arena_free(p, pc); return; } free(p); }
static void *xnewal(size_t n, size_t al)
{
    if (al <= 16) return xnew(n);
    if (ctl() && !T[my_tid].noArena)
    {
        arenaPos = (arenaPos + al - 1) & ~(al - 1);
        void *p = arena_alloc(n ? n : 1); if (p) return p;
    }
    void *p = nullptr; if (posix_memalign(&p, al, n)) abort(); return p;
}
#define PC __builtin_return_address(0)
void *operator new(size_t n) { return xnew(n); }
void *operator new[](size_t n) { return xnew(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return xnew(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return xnew(n); }
void *operator new(size_t n, std::align_val_t a) { return xnewal(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return xnewal(n, (size_t)a); }
void operator delete(void *p) noexcept { xdel(p, PC); }
void operator delete[](void *p) noexcept { xdel(p, PC); }
void operator delete(void *p, size_t) noexcept { xdel(p, PC); }
void operator delete[](void *p, size_t) noexcept { xdel(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { xdel(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { xdel(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { xdel(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { xdel(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { xdel(p, PC); }

// ------------------------------------------------------------------ instrumentation entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(n) \
void __tsan_read##n(void *a) { plain((uintptr_t)a, n, false, PC); } \
void __tsan_write##n(void *a) { plain((uintptr_t)a, n, true, PC); } \
void __tsan_unaligned_read##n(void *a) { plain((uintptr_t)a, n, false, PC); } \
void __tsan_unaligned_write##n(void *a) { plain((uintptr_t)a, n, true, PC); } \
void __tsan_volatile_read##n(void *a) { plain((uintptr_t)a, n, false, PC); } \
void __tsan_volatile_write##n(void *a) { plain((uintptr_t)a, n, true, PC); } \
void __tsan_unaligned_volatile_read##n(void *a) { plain((uintptr_t)a, n, false, PC); } \
void __tsan_unaligned_volatile_write##n(void *a) { plain((uintptr_t)a, n, true, PC); } \
void __tsan_read_write##n(void *a) { plain((uintptr_t)a, n, false, PC); plain((uintptr_t)a, n, true, PC); } \
void __tsan_unaligned_read_write##n(void *a) { plain((uintptr_t)a, n, false, PC); plain((uintptr_t)a, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_read(void **a) { plain((uintptr_t)a, 8, false, PC); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) plain((uintptr_t)a, 8, true, PC); }
void __tsan_read_range(void *a, size_t n) { if (n) plain((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { if (n) plain((uintptr_t)a, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { plain((uintptr_t)s, n, false, PC); plain((uintptr_t)d, n, true, PC); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { plain((uintptr_t)s, n, false, PC); plain((uintptr_t)d, n, true, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { if (n) plain((uintptr_t)d, n, true, PC); return memset(d, v, n); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

static void pre_atomic(const void *a, const void *pc, int kind, size_t size, int mo)
{
    point();
    if (guiding)
    {
        if (size == 1) gate(kind);
        else if (size == 8) gate(9);
        else if (size == 4 && (const char *)a >= guideLo && (const char *)a < guideHi) gate(10);
        else if (size == 4 && mo == 5 && inArena(a)) gate(11);      // the shared index of a loop; not the reference counts of shared pointers
    }
    if (ctl() && inArena(a) && ashadow[((uintptr_t)a - (uintptr_t)arena) >> 4] == 2) fault("uaf", a, pc, nullptr);
}
static thread_local bool weakNext, weakFailed;      // the next compare and exchange of this thread is a weak one; it failed for no reason
void vrt_weak_cas() { weakNext = true; weakFailed = false; }
bool vrt_weak_failed() { const bool w = weakFailed; weakNext = weakFailed = false; return w; }
static bool weak_fails(bool ok)
{
    const bool w = weakNext;
    weakNext = false;
    return weakFailed = w && ok && ctl() && C.weakPermille && (int)rnd(1000) < C.weakPermille;
}
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64; typedef unsigned __int128 a128;
#define ATOM(N, T_) \
T_ __tsan_atomic##N##_load(const volatile T_ *a, int mo) { pre_atomic((const void *)a, PC, 8, sizeof(T_), mo); T_ v = *a; if (ctl()) { access((uintptr_t)a, sizeof(T_), false, PC, true); hb_atomic_load((const void *)a, mo); } return v; } \
void __tsan_atomic##N##_store(volatile T_ *a, T_ v, int mo) { pre_atomic((const void *)a, PC, 7, sizeof(T_), mo); *a = v; if (ctl()) { access((uintptr_t)a, sizeof(T_), true, PC, true); hb_atomic_store((const void *)a, mo); } } \
T_ __tsan_atomic##N##_exchange(volatile T_ *a, T_ v, int mo) { pre_atomic((const void *)a, PC, 6, sizeof(T_), mo); T_ o = *a; *a = v; if (ctl()) { access((uintptr_t)a, sizeof(T_), true, PC, true); hb_atomic_rmw((const void *)a, mo); } return o; } \
T_ __tsan_atomic##N##_fetch_add(volatile T_ *a, T_ v, int mo) { pre_atomic((const void *)a, PC, 6, sizeof(T_), mo); T_ o = *a; *a = o + v; if (ctl()) { access((uintptr_t)a, sizeof(T_), true, PC, true); hb_atomic_rmw((const void *)a, mo); } return o; } \
T_ __tsan_atomic##N##_fetch_sub(volatile T_ *a, T_ v, int mo) { pre_atomic((const void *)a, PC, 6, sizeof(T_), mo); T_ o = *a; *a = o - v; if (ctl()) { access((uintptr_t)a, sizeof(T_), true, PC, true); hb_atomic_rmw((const void *)a, mo); } return o; } \
T_ __tsan_atomic##N##_fetch_and(volatile T_ *a, T_ v, int mo) { pre_atomic((const void *)a, PC, 6, sizeof(T_), mo); T_ o = *a; *a = o & v; if (ctl()) { access((uintptr_t)a, sizeof(T_), true, PC, true); hb_atomic_rmw((const void *)a, mo); } return o; } \
T_ __tsan_atomic##N##_fetch_or(volatile T_ *a, T_ v, int mo) { pre_atomic((const void *)a, PC, 6, sizeof(T_), mo); T_ o = *a; *a = o | v; if (ctl()) { access((uintptr_t)a, sizeof(T_), true, PC, true); hb_atomic_rmw((const void *)a, mo); } return o; } \
T_ __tsan_atomic##N##_fetch_xor(volatile T_ *a, T_ v, int mo) { pre_atomic((const void *)a, PC, 6, sizeof(T_), mo); T_ o = *a; *a = o ^ v; if (ctl()) { access((uintptr_t)a, sizeof(T_), true, PC, true); hb_atomic_rmw((const void *)a, mo); } return o; } \
T_ __tsan_atomic##N##_fetch_nand(volatile T_ *a, T_ v, int mo) { pre_atomic((const void *)a, PC, 6, sizeof(T_), mo); T_ o = *a; *a = ~(o & v); if (ctl()) { access((uintptr_t)a, sizeof(T_), true, PC, true); hb_atomic_rmw((const void *)a, mo); } return o; } \
T_ __tsan_atomic##N##_compare_exchange_val(volatile T_ *a, T_ c, T_ v, int mo, int fmo) { pre_atomic((const void *)a, PC, 6, sizeof(T_), mo); T_ o = *a; bool ok = o == c && !weak_fails(o == c); if (ok) *a = v; else if (o == c) { T_ other = o; *(unsigned char *)&other ^= 1; o = other; } if (ctl()) { access((uintptr_t)a, sizeof(T_), ok, PC, true); if (ok) hb_atomic_rmw((const void *)a, mo); else hb_atomic_load((const void *)a, fmo); } return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T_ *a, T_ *c, T_ v, int mo, int fmo) { pre_atomic((const void *)a, PC, 6, sizeof(T_), mo); T_ o = *a; bool ok = o == *c && !weak_fails(o == *c); if (ok) *a = v; else *c = o; if (ctl()) { access((uintptr_t)a, sizeof(T_), ok, PC, true); if (ok) hb_atomic_rmw((const void *)a, mo); else hb_atomic_load((const void *)a, fmo); } return ok; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T_ *a, T_ *c, T_ v, int mo, int fmo) { pre_atomic((const void *)a, PC, 6, sizeof(T_), mo); T_ o = *a; bool ok = o == *c; if (ok && ctl() && C.weakPermille && (int)rnd(1000) < C.weakPermille) ok = false; if (ok) *a = v; else *c = o; if (ctl()) { access((uintptr_t)a, sizeof(T_), ok, PC, true); if (ok) hb_atomic_rmw((const void *)a, mo); else hb_atomic_load((const void *)a, fmo); } return ok; }
ATOM(8, a8) ATOM(16, a16) ATOM(32, a32) ATOM(64, a64)
void __tsan_atomic_thread_fence(int mo) { point(); if (ctl()) hb_fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ static initialization guards
int __cxa_guard_acquire(uint64_t *g)
{
    unsigned char *b = (unsigned char *)g;
    if (!ctl())
    {
        if (b[0]) return 0;
        b[1] = 1; return 1;
    }
    while (true)
    {
        point();
        if (b[0]) { hb_acquire(g); return 0; }
        if (b[1] == 0) { b[1] = (unsigned char)(my_tid + 1); return 1; }
        block(g);
    }
}
void __cxa_guard_release(uint64_t *g)
{
    unsigned char *b = (unsigned char *)g;
    b[1] = 0;
    if (ctl()) { hb_release(g); }
    b[0] = 1;
    if (ctl()) wake_all(g);
}
void __cxa_guard_abort(uint64_t *g) { unsigned char *b = (unsigned char *)g; b[1] = 0; if (ctl()) wake_all(g); }

// ------------------------------------------------------------------ threads
static int refused(pthread_t *th, int e)
{
    // the handle is written all the same (as the C library does)
    *th = (pthread_t)(stackLo(MAXT - 1) + 64);
    if (on_refused) on_refused(my_tid);
    return e;
}
static void *thread_main(void *p)
{
    int t = (int)(intptr_t)p;
    my_tid = t;
    baton_wait(t);
    T[t].ret = T[t].fn(T[t].arg);
    // done
    point();
    T[t].st = DONE;
    if (C.hbLog) hblog("[\"X\",%d,0],", t);
    wake_all(&T[t]);
    my_tid = t;
    // hand over the baton for good
    pick_and_switch(false);
    my_tid = -1;
    return T[t].ret;
}
int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)
    if (!ctl()) return p(th, attr, fn, arg);
    point();
    if (nT >= MAXT) { abort_run("too-many-threads"); }
    int rt = T[my_tid].sysPrio; uint32_t cores = T[my_tid].cores; size_t stack = 0;
    if (rtLimit >= 0)
    {
        if (refuse && (int)rnd(1000) < refuse) return refused(th, EAGAIN);
        if (attr)
        {
            int inherit = PTHREAD_INHERIT_SCHED, policy = SCHED_OTHER; sched_param sp{}; cpu_set_t cs; CPU_ZERO(&cs);
            pthread_attr_getinheritsched(attr, &inherit); pthread_attr_getschedpolicy(attr, &policy); pthread_attr_getschedparam(attr, &sp);
            if (inherit == PTHREAD_EXPLICIT_SCHED)
            {
                rt = policy == SCHED_OTHER ? 0 : sp.sched_priority;
                if (rt > rtLimit) return refused(th, EPERM);
                if (policy != SCHED_OTHER && (rt < 1 || rt > 99)) return refused(th, EINVAL);
            }
            if (pthread_attr_getaffinity_np(attr, sizeof cs, &cs) == 0)
            {
                uint32_t m = 0;
                for (int i = 0; i < CORES; ++i) if (CPU_ISSET(i, &cs)) m |= 1u << i;
                if (!m) return refused(th, EINVAL);
                cores = m;
            }
            pthread_attr_getstacksize(attr, &stack);
            if (stack == defaultStack) stack = 0;
        }
    }
    const int t = nT;
    Thr &n = T[t];
    memset(&n, 0, sizeof n);
    n.cores = cores; n.sysPrio = rt; n.stack = stack;
    n.fn = fn; n.arg = arg; n.st = RUNNABLE; n.prio = 1000 + (int)rnd(100000);
    if (attr) { int d = 0; pthread_attr_getdetachstate(attr, &d); n.detached = d == PTHREAD_CREATE_DETACHED; }
    ++nT;
    n.vc = T[my_tid].vc; n.vc.c[t] = 1; ++clk(my_tid);
    if (C.hbLog) hblog("[\"C\",%d,%d],", my_tid, t);
    pthread_attr_t a; pthread_attr_init(&a);
    pthread_attr_setstack(&a, stackLo(t), STACKSZ);
    int e = p(&n.real, &a, thread_main, (void *)(intptr_t)t);
    pthread_attr_destroy(&a);
    if (e) { abort_run("pthread_create-failed"); }
    access((uintptr_t)th, sizeof *th, true, PC);
    *th = n.real;
    point();
    return 0;
}
static int find_thread(pthread_t th)
{
    for (int i = nT - 1; i >= 0; --i) if (T[i].st != UNUSED && pthread_equal(T[i].real, th) && !T[i].joined) return i;
    return -1;
}
int pthread_join(pthread_t th, void **ret)
{
    REAL(int, pthread_join, pthread_t, void **)
    if (!ctl()) return p(th, ret);
    point();
    int t = find_thread(th);
    if (t < 0 || T[t].detached) return ESRCH;
    if (t == my_tid) return EDEADLK;
    while (T[t].st != DONE) block(&T[t]);
    if (T[t].joined) return ESRCH;
    T[t].joined = true;
    vc_join(T[my_tid].vc, T[t].vc, nT);
    if (C.hbLog) hblog("[\"J\",%d,%d],", my_tid, t);
    if (ret) *ret = T[t].ret;
    if (!T[t].realJoined) { T[t].realJoined = true; p(th, nullptr); }
    return 0;
}
int pthread_detach(pthread_t th)
{
    REAL(int, pthread_detach, pthread_t)
    if (!ctl()) return p(th);
    point();
    int t = find_thread(th);
    if (t < 0 || T[t].detached) return ESRCH;
    T[t].detached = true; T[t].joined = true;
    return 0;
}
// a thread that is asked something of
static int subject(pthread_t th)
{
    for (int i = nT - 1; i >= 0; --i) if (T[i].st != UNUSED && pthread_equal(T[i].real, th) && !(T[i].joined && i > 0 && !T[i].detached)) return T[i].st == DONE ? -1 : i;
    return -1;
}
int pthread_setaffinity_np(pthread_t th, size_t n, const cpu_set_t *s)
{
    REAL(int, pthread_setaffinity_np, pthread_t, size_t, const cpu_set_t *)
    if (!ctl()) return p(th, n, s);
    if (rtLimit < 0) return 0;
    point();
    const int t = subject(th);
    if (t < 0) return ESRCH;
    uint32_t m = 0;
    for (int i = 0; i < CORES; ++i) if (CPU_ISSET_S(i, n, s)) m |= 1u << i;
    if (!m) return EINVAL;
    T[t].cores = m;
    return 0;
}
int pthread_getaffinity_np(pthread_t th, size_t n, cpu_set_t *s)
{
    REAL(int, pthread_getaffinity_np, pthread_t, size_t, cpu_set_t *)
    if (!ctl() || rtLimit < 0) return p(th, n, s);
    point();
    const int t = subject(th);
    if (t < 0) return ESRCH;
    CPU_ZERO_S(n, s);
    for (int i = 0; i < CORES; ++i) if (T[t].cores >> i & 1) CPU_SET_S(i, n, s);
    return 0;
}
int pthread_getschedparam(pthread_t th, int *policy, sched_param *sp)
{
    REAL(int, pthread_getschedparam, pthread_t, int *, sched_param *)
    if (!ctl() || rtLimit < 0) return p(th, policy, sp);
    point();
    const int t = subject(th);
    if (t < 0) return ESRCH;
    *policy = T[t].sysPrio ? SCHED_RR : SCHED_OTHER; sp->sched_priority = T[t].sysPrio;
    return 0;
}
static int set_sched(pthread_t th, bool rr, int prio)
{
    point();
    const int t = subject(th);
    if (t < 0) return ESRCH;
    if (rr ? prio < 1 || prio > 99 : prio != 0) return EINVAL;
    if (prio > rtLimit) return EPERM;
    T[t].sysPrio = prio;
    return 0;
}
int pthread_setschedprio(pthread_t th, int prio)
{
    if (!ctl() || rtLimit < 0) return 0;
    const int t = subject(th);
    return set_sched(th, t >= 0 && T[t].sysPrio > 0, prio);
}
int pthread_setschedparam(pthread_t th, int policy, const sched_param *sp)
{
    REAL(int, pthread_setschedparam, pthread_t, int, const sched_param *)
    if (!ctl() || rtLimit < 0) return p(th, policy, sp);
    return set_sched(th, policy != SCHED_OTHER, sp->sched_priority);
}
int getrlimit(__rlimit_resource_t r, struct rlimit *l)
{
    REAL(int, getrlimit, __rlimit_resource_t, struct rlimit *)
    const int e = p(r, l);
    if (ctl() && rtLimit >= 0 && r == RLIMIT_RTPRIO) l->rlim_cur = l->rlim_max = rtLimit;
    return e;
}
long sysconf(int name)
{
    if (name == _SC_NPROCESSORS_ONLN && ctl()) return CORES;
    REAL(long, sysconf, int)
    return p(name);
}
int pthread_setname_np(pthread_t th, const char *name)
{
    REAL(int, pthread_setname_np, pthread_t, const char *)
    if (!ctl()) return p(th, name);
    if (on_setname)
    {
        int t = -1;
        for (int i = nT - 1; i >= 0; --i) if (T[i].st != UNUSED && pthread_equal(T[i].real, th)) { t = i; break; }
        on_setname(t, name);
    }
    return strlen(name) > 15 ? ERANGE : 0;
}
int pthread_cancel(pthread_t th) { (void)th; if (ctl()) abort_run("pthread_cancel"); return 0; }
int sched_yield()
{
    if (!ctl()) { syscall(SYS_sched_yield); return 0; }
    T[my_tid].yielded = true;
    point();
    return 0;
}

// ------------------------------------------------------------------ time
int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!ctl()) return (int)syscall(SYS_clock_gettime, c, ts);
    uint64_t n = g_now;
    if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) n -= 1000000ull * 1000000000ull - 5000000000ull; // another origin for monotonic clocks
    ts->tv_sec = (time_t)(n / 1000000000ull); ts->tv_nsec = (long)(n % 1000000000ull);
    return 0;
}
static int vsleep(uint64_t until, struct timespec *rem)
{
    if (C.eintrPermille && (int)rnd(1000) < C.eintrPermille)
    {
        // interrupted somewhere in the middle
        uint64_t left = until > g_now ? until - g_now : 0;
        uint64_t part = left ? rnd(left) : 0;
        if (left - part)
        {
            block(nullptr, true, g_now + part);
            left = until > g_now ? until - g_now : 0;
            if (rem) { rem->tv_sec = (time_t)(left / 1000000000ull); rem->tv_nsec = (long)(left % 1000000000ull); }
            return EINTR;
        }
    }
    if (until > g_now) block(nullptr, true, until); else point();
    return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rem)
{
    REAL(int, nanosleep, const struct timespec *, struct timespec *)
    if (!ctl()) return p(rq, rem);
    if (rq->tv_nsec < 0 || rq->tv_nsec >= 1000000000l || rq->tv_sec < 0) { errno = EINVAL; return -1; }
    int e = vsleep(g_now + (uint64_t)rq->tv_sec * 1000000000ull + (uint64_t)rq->tv_nsec, rem);
    if (e) { errno = e; return -1; }
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rem)
{
    REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *)
    if (!ctl()) return p(c, flags, rq, rem);
    if (rq->tv_nsec < 0 || rq->tv_nsec >= 1000000000l) return EINVAL;
    uint64_t n = (uint64_t)rq->tv_sec * 1000000000ull + (uint64_t)rq->tv_nsec;
    if (flags & TIMER_ABSTIME) { if (c != CLOCK_REALTIME) n += 1000000ull * 1000000000ull - 5000000000ull; }
    else n += g_now;
    return vsleep(n, (flags & TIMER_ABSTIME) ? nullptr : rem);
}
int usleep(useconds_t us)
{
    if (!ctl()) { struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
    int e = vsleep(g_now + (uint64_t)us * 1000, nullptr);
    if (e) { errno = e; return -1; }
    return 0;
}
unsigned sleep(unsigned s)
{
    struct timespec t = {(time_t)s, 0}, r = {0, 0};
    return nanosleep(&t, &r) == 0 ? 0 : (unsigned)(r.tv_sec + (r.tv_nsec > 0));
}

// ------------------------------------------------------------------ semaphores
static Sem *getsem(sem_t *s, const void *pc)
{
    auto it = sems->find((uintptr_t)s);
    if (it == sems->end()) { fault("uaf", s, pc, nullptr); return nullptr; }
    if (it->second.named) for (auto *n : *named) if (n->addr == s && n->refs <= 0) { fault("uaf", s, pc, nullptr); return nullptr; }
    return &it->second;
}
int sem_init(sem_t *s, int, unsigned v)
{
    REAL(int, sem_init, sem_t *, int, unsigned)
    if (!ctl()) return p(s, 0, v);
    if (v > (unsigned)INT_MAX) { errno = EINVAL; return -1; }
    access((uintptr_t)s, sizeof *s, true, PC);
    (*sems)[(uintptr_t)s] = Sem{(int64_t)v, false};
    return 0;
}
int sem_destroy(sem_t *s)
{
    REAL(int, sem_destroy, sem_t *)
    if (!ctl()) return p(s);
    point();
    access((uintptr_t)s, sizeof *s, true, PC);
    if (!getsem(s, PC)) { errno = EINVAL; return -1; }
    sems->erase((uintptr_t)s);
    return 0;
}
int sem_post(sem_t *s)
{
    REAL(int, sem_post, sem_t *)
    if (!ctl()) return p(s);
    point();
    gate(2);
    access((uintptr_t)s, sizeof *s, true, PC, true);
    Sem *m = getsem(s, PC);
    if (!m) { errno = EINVAL; return -1; }
    if (m->value >= INT_MAX) { errno = EOVERFLOW; return -1; }
    hb_release(s);
    ++m->value;
    wake_all(s);
    return 0;
}
int sem_trywait(sem_t *s)
{
    REAL(int, sem_trywait, sem_t *)
    if (!ctl()) return p(s);
    point();
    gate(4);
    access((uintptr_t)s, sizeof *s, true, PC, true);
    Sem *m = getsem(s, PC);
    if (!m) { errno = EINVAL; return -1; }
    if (m->value > 0) { --m->value; hb_acquire(s); return 0; }
    errno = EAGAIN; return -1;
}
int sem_wait(sem_t *s)
{
    REAL(int, sem_wait, sem_t *)
    if (!ctl()) return p(s);
    point();
    while (true)
    {
        access((uintptr_t)s, sizeof *s, true, PC, true);
        Sem *m = getsem(s, PC);
        if (!m) { errno = EINVAL; return -1; }
        if (m->value > 0 && guiding) { gate(3); m = getsem(s, PC); if (!m) { errno = EINVAL; return -1; } }
        if (m->value > 0) { --m->value; hb_acquire(s); return 0; }
        if (C.eintrPermille && (int)rnd(1000) < C.eintrPermille) { point(); errno = EINTR; return -1; }
        block(s);
    }
}
static int timedwait(sem_t *s, uint64_t until, bool valid, const void *pc)
{
    point();
    while (true)
    {
        access((uintptr_t)s, sizeof *s, true, pc, true);
        Sem *m = getsem(s, pc);
        if (!m) { errno = EINVAL; return -1; }
        if (m->value > 0) { --m->value; hb_acquire(s); return 0; }
        if (!valid) { errno = EINVAL; return -1; }
        if (g_now >= until) { errno = ETIMEDOUT; return -1; }
        if (C.eintrPermille && (int)rnd(1000) < C.eintrPermille) { point(); errno = EINTR; return -1; }
        block(s, true, until);
        if (T[my_tid].timedOut)
        {
            Sem *m2 = getsem(s, pc);
            if (m2 && m2->value > 0 && (rnd64() & 1)) { --m2->value; hb_acquire(s); return 0; }
            errno = ETIMEDOUT; return -1;
        }
    }
}
int sem_timedwait(sem_t *s, const struct timespec *ts)
{
    REAL(int, sem_timedwait, sem_t *, const struct timespec *)
    if (!ctl()) return p(s, ts);
    bool valid = ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000l;
    uint64_t until = ts->tv_sec < 0 ? 0 : ts->tv_sec > 9000000000l ? UINT64_MAX / 2 : (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
    return timedwait(s, until, valid, PC);
}
int sem_clockwait(sem_t *s, clockid_t c, const struct timespec *ts)
{
    REAL(int, sem_clockwait, sem_t *, clockid_t, const struct timespec *)
    if (!ctl()) return p(s, c, ts);
    bool valid = ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000l;
    uint64_t until = ts->tv_sec < 0 ? 0 : ts->tv_sec > 9000000000l ? UINT64_MAX / 2 : (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
    if (c != CLOCK_REALTIME) until += 1000000ull * 1000000000ull - 5000000000ull;
    return timedwait(s, until, valid, PC);
}
int sem_getvalue(sem_t *s, int *v)
{
    REAL(int, sem_getvalue, sem_t *, int *)
    if (!ctl()) return p(s, v);
    point();
    access((uintptr_t)s, sizeof *s, false, PC, true);
    Sem *m = getsem(s, PC);
    if (!m) { errno = EINVAL; return -1; }
    *v = (int)m->value;
    return 0;
}
// Named semaphores live in a namespace of their own, nothing is created in /dev/shm.
sem_t *sem_open(const char *name, int oflag, ...)
{
    unsigned mode = 0, value = 0;
    if (oflag & O_CREAT) { va_list ap; va_start(ap, oflag); mode = va_arg(ap, unsigned); value = va_arg(ap, unsigned); va_end(ap); (void)mode; }
    if (!ctl()) { errno = ENOSYS; return SEM_FAILED; }
    point();
    if (strlen(name) > 250) { errno = ENAMETOOLONG; return SEM_FAILED; }
    while (*name == '/') ++name;
    if (!*name || strchr(name, '/')) { errno = EINVAL; return SEM_FAILED; }
    NamedSem *found = nullptr;
    for (auto *n : *named) if (n->linked && n->name == name) found = n;
    if (found)
    {
        if ((oflag & O_CREAT) && (oflag & O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
        if (found->refs++ == 0) { /* mapped again */ }
        hb_acquire(found->addr);
        return found->addr;
    }
    if (!(oflag & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    if (value > (unsigned)INT_MAX) { errno = EINVAL; return SEM_FAILED; }
    NamedSem *n = mk<NamedSem>(); n->addr = (sem_t *)malloc(sizeof(sem_t)); n->refs = 1; n->linked = true; n->name = name;
    named->push_back(n);
    (*sems)[(uintptr_t)n->addr] = Sem{(int64_t)value, true};
    hb_release(n->addr);
    return n->addr;
}
int sem_close(sem_t *s)
{
    if (!ctl()) return 0;
    point();
    for (auto *n : *named) if (n->addr == s)
    {
        if (n->refs <= 0) { fault("uaf", s, PC, nullptr); errno = EINVAL; return -1; }
        --n->refs;
        return 0;
    }
    fault("uaf", s, PC, nullptr);
    errno = EINVAL; return -1;
}
int sem_unlink(const char *name)
{
    if (!ctl()) { errno = ENOENT; return -1; }
    point();
    while (*name == '/') ++name;
    for (auto *n : *named) if (n->linked && n->name == name) { n->linked = false; return 0; }
    errno = ENOENT; return -1;
}

// ------------------------------------------------------------------ mutexes
static Mtx *getmtx(const void *m)
{
    auto it = mtxs->find((uintptr_t)m);
    if (it == mtxs->end()) it = mtxs->emplace((uintptr_t)m, Mtx{-1, 0, 0}).first;
    if (inArena(m) && ashadow[((uintptr_t)m - (uintptr_t)arena) >> 4] == 2) fault("uaf", m, nullptr, nullptr);
    return &it->second;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    REAL(int, pthread_mutex_init, pthread_mutex_t *, const pthread_mutexattr_t *)
    if (ctl()) (*mtxs)[(uintptr_t)m] = Mtx{-1, 0, 0};
    return p(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (ctl()) mtxs->erase((uintptr_t)m);
    return 0;
}
static bool mtx_kind_rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static bool mtx_held(pthread_mutex_t *m) { return getmtx(m)->owner >= 0; }
static int mtx_lock(pthread_mutex_t *m, bool tr, bool timed, uint64_t until, bool own = false)
{
    point();
    while (true)
    {
        Mtx *x = getmtx(m);
        if (x->owner < 0 && own && guiding)
        {
            gate_on(5, m, mtx_held);
            if (!mtx_held(m)) own = false;
            continue;
        }
        if (x->owner < 0) { x->owner = my_tid; x->rec = 1; hb_acquire(m); return 0; }
        if (x->owner == my_tid && mtx_kind_rec(m)) { ++x->rec; return 0; }
        if (tr) return EBUSY;
        if (timed && g_now >= until) return ETIMEDOUT;
        block(m, timed, until);
        if (timed && T[my_tid].timedOut && getmtx(m)->owner >= 0) return ETIMEDOUT;
    }
}
static int mtx_unlock(pthread_mutex_t *m)
{
    Mtx *x = getmtx(m);
    if (x->owner != my_tid) return EPERM;
    if (--x->rec > 0) return 0;
    x->owner = -1;
    hb_release(m);
    wake_all(m);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
    REAL(int, pthread_mutex_lock, pthread_mutex_t *)
    if (!ctl()) return p(m);
    const char *from = (const char *)__builtin_return_address(0);
    return mtx_lock(m, false, false, 0, from >= &__executable_start && from < &etext);
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
    if (!ctl()) return p(m);
    return mtx_lock(m, true, false, 0);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
    if (!ctl()) abort();
    return mtx_lock(m, false, true, (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts)
{
    if (!ctl()) abort();
    uint64_t u = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
    if (c != CLOCK_REALTIME) u += 1000000ull * 1000000000ull - 5000000000ull;
    return mtx_lock(m, false, true, u);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    REAL(int, pthread_mutex_unlock, pthread_mutex_t *)
    if (!ctl()) return p(m);
    int r = mtx_unlock(m);
    point();
    return r;
}
// ------------------------------------------------------------------ reader/writer locks
static int rw_lock(void *m, bool write, bool tr)
{
    point();
    while (true)
    {
        Mtx *x = getmtx(m);
        if (x->owner < 0 && (!write || x->readers == 0)) { if (write) x->owner = my_tid; else ++x->readers; hb_acquire(m); return 0; }
        if (tr) return EBUSY;
        block(m);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (!ctl()) return 0; return rw_lock(m, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!ctl()) return 0; return rw_lock(m, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (!ctl()) return 0; return rw_lock(m, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (!ctl()) return 0; return rw_lock(m, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    if (!ctl()) return 0;
    Mtx *x = getmtx(m);
    if (x->owner == my_tid) x->owner = -1; else if (x->readers > 0) --x->readers;
    hb_release(m); wake_all(m); point();
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *m) { if (ctl()) mtxs->erase((uintptr_t)m); return 0; }
// ------------------------------------------------------------------ condition variables
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t until)
{
    point();
    mtx_unlock(m);
    bool to = false;
    if (timed && g_now >= until) to = true;
    else { block(c, timed, until); to = timed && T[my_tid].timedOut; }
    mtx_lock(m, false, false, 0);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
    REAL(int, pthread_cond_init, pthread_cond_t *, const pthread_condattr_t *)
    return p(c, a);
}
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!ctl()) abort();
    return cond_wait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    if (!ctl()) abort();
    return cond_wait(c, m, true, (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t ck, const struct timespec *ts)
{
    if (!ctl()) abort();
    uint64_t u = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
    if (ck != CLOCK_REALTIME) u += 1000000ull * 1000000000ull - 5000000000ull;
    return cond_wait(c, m, true, u);
}
int pthread_cond_signal(pthread_cond_t *c)
{
    REAL(int, pthread_cond_signal, pthread_cond_t *)
    if (!ctl()) return p(c);
    point();
    uint32_t w = 0;
    for (int i = 0; i < nT; ++i) if (T[i].st == BLOCKED && T[i].obj == c) w |= 1u << i;
    if (w) { int i = nth_bit(w, (int)rnd(__builtin_popcount(w))); T[i].st = RUNNABLE; T[i].timed = false; T[i].timedOut = false; }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    REAL(int, pthread_cond_broadcast, pthread_cond_t *)
    if (!ctl()) return p(c);
    point();
    wake_all(c);
    return 0;
}
int pthread_once(pthread_once_t *o, void (*f)(void))
{
    REAL(int, pthread_once, pthread_once_t *, void (*)(void))
    if (!ctl()) return p(o, f);
    while (true)
    {
        point();
        int &s = (*onces)[(uintptr_t)o];
        if (s == 2) { hb_acquire(o); return 0; }
        if (s == 0) { s = 1; f(); (*onces)[(uintptr_t)o] = 2; hb_release(o); wake_all(o); return 0; }
        block(o);
    }
}
} // extern "C"
