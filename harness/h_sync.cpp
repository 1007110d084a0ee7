// Drives the synchronization objects and the queue of the library with programs given as data.
#include "common.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <chrono>
#include <new>
#define OQPI_USE_DEFAULT
#include "oqpi.hpp"

using namespace oqpi;
using vrt::log;

enum Kind { SEM, AEV, MEV, GSEM, GAEV, GMEV, GMTX, QUE };
struct Op { int op, a, b, c, d, e; };
struct Prog { std::vector<int> kinds; std::vector<std::vector<Op>> threads; };
static std::vector<Prog> progs;
static const Prog *P;
void harness_load(const char *file)
{
    FILE *f = fopen(file, "r"); if (!f) { perror(file); exit(2); }
    int np; if (fscanf(f, "%d", &np) != 1) exit(2);
    while (np--)
    {
        Prog p; int n, k;
        if (fscanf(f, "%d", &n) != 1) exit(2);
        while (n--) { if (fscanf(f, "%d", &k) != 1) exit(2); p.kinds.push_back(k); }
        if (fscanf(f, "%d", &n) != 1) exit(2);
        while (n--)
        {
            std::vector<Op> v; if (fscanf(f, "%d", &k) != 1) exit(2);
            while (k--) { Op o; if (fscanf(f, "%d %d %d %d %d %d", &o.op, &o.a, &o.b, &o.c, &o.d, &o.e) != 6) exit(2); v.push_back(o); }
            p.threads.push_back(v);
        }
        progs.push_back(p);
    }
    fclose(f);
}
int harness_programs() { return (int)progs.size(); }

// ------------------------------------------------------------------ variables
static const int MAXS = 12;
alignas(64) static char mem[MAXS][320];
static bool constructed[MAXS], valid_[MAXS];
static long cell[4];
static int held[MAXS];
static uint64_t t0; static int blocks0;
using Q = concurrent_queue<int>;
NOI static bool con(int s) { return constructed[s]; }
NOI static void setcon(int s, bool b) { constructed[s] = b; }
NOI static int &heldBy(int s) { return held[s]; }
template<typename T> static T &as(int s) { return *(T *)mem[s]; }
// ------------------------------------------------------------------ augmentation layers
// counts the operations and owns something that moves along
struct Seen { int n, op; };
static Seen seen_[64];
NOI static Seen &seen() { return seen_[vrt::tid() & 63]; }
NOI static void saw(int op) { ++seen().n; seen().op = op; }
static int tagOf[64];
NOI static int &nextTag() { return tagOf[vrt::tid() & 63]; }
struct Tag
{
    int v;
    Tag() : v(nextTag()) {}
    Tag(Tag &&o) : v(o.v) { o.v = 0; }
    Tag &operator=(Tag &&o) { const int x = o.v; o.v = 0; v = x; return *this; }
};
#define LAYER(L) template<typename... A> L(A &&...a) : B(std::forward<A>(a)...) {} L(L &&) = default; L &operator=(L &&) = default; Tag tag;
template<typename B> struct LaySem : public B
{
    LAYER(LaySem)
    bool wait() { saw(1); return B::wait(); }
    bool tryWait() { saw(2); return B::tryWait(); }
    template<typename D> bool waitFor(const D &d) { saw(3); return B::waitFor(d); }
    void notify(int32_t n) { saw(4); B::notify(n); }
    void notifyOne() { saw(4); B::notifyOne(); }
    void notifyAll() { saw(5); B::notifyAll(); }
};
template<typename B> struct LayEv : public B
{
    LAYER(LayEv)
    bool wait() { saw(1); return B::wait(); }
    template<typename D> bool waitFor(const D &d) { saw(3); return B::waitFor(d); }
    void notify() { saw(4); B::notify(); }
    void reset() { saw(6); B::reset(); }
};
template<typename B> struct LayMtx : public B
{
    LAYER(LayMtx)
    bool lock() { saw(1); return B::lock(); }
    bool tryLock() { saw(2); return B::tryLock(); }
    template<typename D> bool tryLockFor(const D &d) { saw(3); return B::tryLockFor(d); }
    void unlock() { saw(7); B::unlock(); }
};
template<typename I> using LSem = LaySem<local_sync_object<I>>;
template<typename I> using GSem = LaySem<global_sync_object<I>>;
template<typename I> using LEv = LayEv<local_sync_object<I>>;
template<typename I> using GEv = LayEv<global_sync_object<I>>;
template<typename I> using GMtx = LayMtx<global_sync_object<I>>;
using LSEM = semaphore_interface<LSem>; using LAEV = auto_reset_event_interface<LEv>; using LMEV = manual_reset_event_interface<LEv>;
using LGSEM = semaphore_interface<GSem>; using LGAEV = auto_reset_event_interface<GEv>; using LGMEV = manual_reset_event_interface<GEv>;
using LGMTX = mutex_interface<GMtx>;
static int base(int kind) { return kind & 7; }
static bool layered(int kind) { return kind >= 8; }
// calls f with the variable s as what it is
template<typename F> static void with(int s, F &&f)
{
    switch (P->kinds[s])
    {
    case SEM:  f(as<semaphore>(s)); break;
    case AEV:  f(as<auto_reset_event>(s)); break;
    case MEV:  f(as<manual_reset_event>(s)); break;
    case GSEM: f(as<global_semaphore>(s)); break;
    case GAEV: f(as<global_auto_reset_event>(s)); break;
    case GMEV: f(as<global_manual_reset_event>(s)); break;
    case GMTX: f(as<global_mutex>(s)); break;
    case 8 + SEM:  f(as<LSEM>(s)); break;
    case 8 + AEV:  f(as<LAEV>(s)); break;
    case 8 + MEV:  f(as<LMEV>(s)); break;
    case 8 + GSEM: f(as<LGSEM>(s)); break;
    case 8 + GAEV: f(as<LGAEV>(s)); break;
    case 8 + GMEV: f(as<LGMEV>(s)); break;
    case 8 + GMTX: f(as<LGMTX>(s)); break;
    }
}
static std::string nameOf(int i)
{
    switch (i)
    {
    case 8: return "a/b";
    case 9: return std::string(300, 'x');
    case 7: return "/a";
    }
    return "vrt_name_" + std::to_string(i);
}
static const sync_object_creation_options OPT[] = { sync_object_creation_options::create_if_nonexistent, sync_object_creation_options::open_existing, sync_object_creation_options::open_or_create };
// name, option (3: constructor taking only the name), initial count, maximum
template<typename TSem, typename TAev, typename TMev, typename TGSem, typename TGAev, typename TGMev, typename TGMtx>
static void construct_as(void *m, int kind, int name, int opt, int init, int mx)
{
    switch (kind)
    {
    case SEM:  if (mx) new (m) TSem(init, mx); else if (init) new (m) TSem(init); else new (m) TSem; break;
    case AEV:  new (m) TAev; break;
    case MEV:  new (m) TMev; break;
    case GSEM: if (opt == 3) { if (mx) new (m) TGSem(nameOf(name), init, mx); else new (m) TGSem(nameOf(name), init); }
               else if (mx) new (m) TGSem(nameOf(name), OPT[opt], init, mx); else new (m) TGSem(nameOf(name), OPT[opt], init); break;
    case GAEV: if (opt == 3) new (m) TGAev(nameOf(name)); else new (m) TGAev(nameOf(name), OPT[opt]); break;
    case GMEV: if (opt == 3) new (m) TGMev(nameOf(name)); else new (m) TGMev(nameOf(name), OPT[opt]); break;
    case GMTX: if (opt == 3) new (m) TGMtx(nameOf(name)); else new (m) TGMtx(nameOf(name), OPT[opt], init == 0); break;
    case QUE:  new (m) Q; break;
    }
}
static void construct(int s, int name, int opt, int init, int mx)
{
    void *m = mem[s];
    nextTag() = s + 1;
    if (!layered(P->kinds[s])) construct_as<semaphore, auto_reset_event, manual_reset_event, global_semaphore, global_auto_reset_event, global_manual_reset_event, global_mutex>(m, base(P->kinds[s]), name, opt, init, mx);
    else construct_as<LSEM, LAEV, LMEV, LGSEM, LGAEV, LGMEV, LGMTX>(m, base(P->kinds[s]), name, opt, init, mx);
    nextTag() = 0;
    setcon(s, true);
}
template<typename T> static void destroyT(T &t) { t.~T(); }
static void destroy(int s)
{
    if (P->kinds[s] == QUE) as<Q>(s).~Q(); else with(s, [](auto &o) { destroyT(o); });
    setcon(s, false);
}
template<typename T> static void moveC(int d, T &src) { new (mem[d]) T(std::move(src)); }

// what an object can do
template<typename T> static auto do_notify(T &o, int n, int) -> decltype(o.notify(n)) { return n == 1 ? o.notifyOne() : o.notify(n); }
template<typename T> static auto do_notify(T &o, int, long) -> decltype(o.notify()) { return o.notify(); }
static void do_notify(global_mutex &, int, int) {}
static void do_notify(LGMTX &, int, int) {}
template<typename T> static auto do_notifyAll(T &o, int) -> decltype(o.notifyAll()) { return o.notifyAll(); }
template<typename T> static void do_notifyAll(T &, long) {}
template<typename T> static auto do_try(T &o, int) -> decltype(o.tryWait()) { return o.tryWait(); }
template<typename T> static auto do_try(T &o, int) -> decltype(o.tryLock()) { return vrt::rnd(2) ? o.tryLock() : o.try_lock(); }
template<typename T> static bool do_try(T &, long) { return false; }
template<typename T> static auto do_wait(T &o, int) -> decltype(o.wait()) { return o.wait(); }
template<typename T> static auto do_wait(T &o, int) -> decltype(o.lock()) { return o.lock(); }
template<typename T, typename D> static auto do_for(T &o, const D &d, int) -> decltype(o.waitFor(d)) { return o.waitFor(d); }
template<typename T, typename D> static auto do_for(T &o, const D &d, int) -> decltype(o.tryLockFor(d)) { return o.try_lock_for(d); }
template<typename T, typename D> static auto do_until(T &o, const D &d, int) -> decltype(o.waitUntil(d)) { return o.waitUntil(d); }
template<typename T, typename D> static auto do_until(T &o, const D &d, int) -> decltype(o.tryLockUntil(d)) { return o.try_lock_until(d); }
static void do_reset(manual_reset_event &o) { o.reset(); }
static void do_reset(global_manual_reset_event &o) { o.reset(); }
static void do_reset(LMEV &o) { o.reset(); }
static void do_reset(LGMEV &o) { o.reset(); }
template<typename T> static void do_reset(T &) {}
static void do_unlock(global_mutex &o) { o.unlock(); }
static void do_unlock(LGMTX &o) { o.unlock(); }
template<typename T> static void do_unlock(T &) {}

static long long rel() { return (long long)(vrt::now() - t0); }
struct Tm { int s, n; };
static Tm split(long long ns) { if (ns < 0) return {-1, 0}; return {(int)(ns / 1000000000), (int)(ns % 1000000000)}; }
static const Tm NEVER = {2000000000, 0};
// durations: unit, value
template<typename F> static void with_duration(int unit, int v, F &&f)
{
    using namespace std::chrono;
    switch (unit)
    {
    case 0: f(nanoseconds(v)); break;
    case 1: f(microseconds(v)); break;
    case 2: f(milliseconds(v)); break;
    case 3: f(seconds(v)); break;
    case 4: f(minutes(v)); break;
    case 5: f(hours(v)); break;
    case 6: f(duration<double>(v / 8.0)); break;
    case 7: f(duration<float, std::milli>(v / 4.0f)); break;
    case 8: f(hours::max()); break;
    case 9: f(duration<long long, std::ratio<1, 3>>(v)); break;
    case 10: f(nanoseconds::max()); break;
    case 11: f(seconds::min()); break;
    case 12: f(duration<int, std::micro>(v)); break;
    }
}
static Tm deadline_rel(int unit, int v)
{
    const long long n = rel();
    static const long long mul[] = {1, 1000, 1000000, 1000000000, 60000000000ll, 3600000000000ll, 125000000, 250000, 0, 333333333, 0, 0, 1000};
    if (unit == 8 || unit == 10) return NEVER;
    if (unit == 11) return split(n);
    if (v <= 0) return split(n);
    if (unit == 9) return split(n + (long long)v * 1000000000 / 3);
    return split(n + mul[unit] * v);
}
template<typename F> static void with_point(int clk, int ms, F &&f)
{
    using namespace std::chrono;
    switch (clk)
    {
    case 0: f(system_clock::now() + milliseconds(ms)); break;
    case 1: f(steady_clock::now() + milliseconds(ms)); break;
    case 2: f(time_point_cast<milliseconds>(system_clock::now()) + milliseconds(ms)); break;
    case 3: f(time_point_cast<seconds>(steady_clock::now()) + seconds(ms / 1000)); break;
    case 4: f(high_resolution_clock::now() + nanoseconds(ms)); break;
    case 5: f(time_point<steady_clock, duration<double>>(steady_clock::now()) + duration<double>(ms / 8.0)); break;
    }
}
template<typename T> static Tm deadline_abs(const T &tp)
{
    // in nanoseconds from the beginning of the run
    using namespace std::chrono;
    long long d = (long long)duration_cast<nanoseconds>(tp.time_since_epoch() - T::clock::now().time_since_epoch()).count();
    // what a point in floating point can't express
    if (std::is_floating_point<typename T::rep>::value && d > 0) d = d > 200 ? d - 200 : 0;
    const long long r = rel() + d;
    return split(d < 0 ? rel() : r);
}

template<typename T> static auto tag_of(T &o, int) -> decltype(o.tag.v) { return o.tag.v; }
template<typename T> static int tag_of(T &, long) { return 0; }
template<typename T> static auto name_of(T &o, int) -> decltype(o.getName().size(), 0) { for (int i = 1; i < 9; ++i) if (o.getName() == nameOf(i)) return i; return 99; }
template<typename T> static int name_of(T &, long) { return 0; }
static int slotNow[64];
NOI static int &slot_now() { return slotNow[vrt::tid() & 63]; }
static void call(const char *op, int s, int x, int y, Tm d) { slot_now() = s; seen() = Seen{0, 0}; Tm n = split(rel()); log("[\"c\",%d,\"%s\",%d,%d,%d,%d,%d,%d,%d],", vrt::tid(), op, s + 1, x, y, d.s, d.n, n.s, n.n); }
static void ret(int res, int v = 0)
{
    Tm n = split(rel()); log("[\"r\",%d,%d,%d,%d,%d],", vrt::tid(), res, v, n.s, n.n);
    // what the layer saw, and what it owns
    const int s = slot_now();
    if (s < 0 || !layered(P->kinds[s]) || !con(s)) return;
    int tag = 0;
    with(s, [&](auto &o) { tag = tag_of(o, 0); });
    log("[\"ly\",%d,%d,%d,%d,%d],", vrt::tid(), s + 1, seen().n, seen().op, tag);
}
static const Tm NOW0 = {0, 0};
static void got(int s)
{
    if (base(P->kinds[s]) != GMTX) return;
    heldBy(s) = vrt::tid() + 1;
    why[vrt::tid()] = "C18";
    cell[0] = cell[0] + 1;
    why[vrt::tid()] = nullptr;
}
static bool usable(int s)
{
    if (!con(s)) return false;
    if (P->kinds[s] == QUE) return true;
    bool b = false; with(s, [&](auto &o) { b = o.isValid(); });
    return b;
}
static void exec(const Op &o)
{
    const int s = o.a;
    vrt::point();
    if (o.op >= 10 && o.op < 30 && !usable(s)) { call("none", s, 0, 0, NOW0); ret(0); return; }
    switch (o.op)
    {
    case 1: if (con(s)) break;
            if (o.b >= 8 && OQPI_ENABLE_CHECKS) break; // asserted
            call("new", s, o.b, o.c, {o.d, o.e}); construct(s, o.b, o.c, o.d, o.e); { bool v = usable(s); ret(v); } break;
    case 2: if (con(s) || !con(o.b)) break; call("movec", s, o.b + 1, 0, NOW0); with(o.b, [&](auto &src) { moveC(s, src); }); setcon(s, true); ret(usable(s), usable(o.b)); break;
    case 3: if (!con(s) || !con(o.b)) break;
            call("movea", s, o.b + 1, 0, NOW0);
            with(s, [&](auto &dst) { using T = std::decay_t<decltype(dst)>; dst = std::move(as<T>(o.b)); });
            ret(usable(s), usable(o.b)); break;
    case 4: if (!con(s)) break; call("del", s, 0, 0, NOW0); destroy(s); ret(1); break;
    case 5: if (!con(s)) break; call("valid", s, 0, 0, NOW0); { int nm = 0; const bool v = usable(s); if (v) with(s, [&](auto &x) { nm = name_of(x, 0); }); ret(v, nm); } break;
    case 10: call("notify", s, o.b, 0, NOW0); with(s, [&](auto &x) { do_notify(x, o.b, 0); }); ret(1); break;
    case 11: call("notifyAll", s, o.b, 0, NOW0); with(s, [&](auto &x) { do_notifyAll(x, 0); }); ret(1); break;
    case 12: { call("try", s, 0, 0, NOW0); bool b = false; with(s, [&](auto &x) { b = do_try(x, 0); }); if (b) got(s); ret(b); break; }
    case 13: { call("wait", s, 0, 0, NOW0); bool b = false; with(s, [&](auto &x) { b = do_wait(x, 0); }); if (b) got(s); ret(b); break; }
    case 14: { call("timed", s, 0, 0, deadline_rel(o.b, o.c)); bool b = false; with_duration(o.b, o.c, [&](auto d) { with(s, [&](auto &x) { b = do_for(x, d, 0); }); }); if (b) got(s); ret(b); break; }
    case 15: { bool b = false; with_point(o.b, o.c, [&](auto tp) { call("timed", s, 0, 0, deadline_abs(tp)); with(s, [&](auto &x) { b = do_until(x, tp, 0); }); }); if (b) got(s); ret(b); break; }
    case 16: call("reset", s, 0, 0, NOW0); with(s, [&](auto &x) { do_reset(x); }); ret(1); break;
    case 17: if (heldBy(s) != vrt::tid() + 1) break; // fall through
    case 18: if (o.op == 17) { why[vrt::tid()] = "C18"; cell[0] = cell[0] + 1; why[vrt::tid()] = nullptr; }
             heldBy(s) = 0; call("unlock", s, 0, 0, NOW0); with(s, [&](auto &x) { do_unlock(x); }); ret(1); break;
    case 20: { call("push", s, o.b, 0, NOW0); if (o.c) { int v = o.b; as<Q>(s).push(v); } else as<Q>(s).push(int(o.b)); ret(1); break; }
    case 21: { call("pop", s, 0, 0, NOW0); int v = -7; bool b = as<Q>(s).tryPop(v); ret(b, v); break; }
    case 22: { call("empty", s, 0, 0, NOW0); bool b = as<Q>(s).empty(); ret(b); break; }
    case 30: { call("sleep", -1, 0, 0, deadline_rel(o.b, o.c)); with_duration(o.b, o.c, [&](auto d) { this_thread::sleep_for(d); }); ret(1); break; }
    case 31: { with_point(o.b, o.c, [&](auto tp) { call("sleep", -1, 0, 0, deadline_abs(tp)); this_thread::sleep_until(tp); }); ret(1); break; }
    case 40: { call("live", s, 0, 0, NOW0); ret(vrt::live_sems(), vrt::linked_names()); break; }
    case 41: std::this_thread::sleep_for(std::chrono::microseconds(o.a)); break;
    }
}
void harness_run(int prog)
{
    P = &progs[prog];
    t0 = vrt::now();
    for (int i = 0; i < MAXS; ++i) { setcon(i, false); heldBy(i) = 0; }
    blocks0 = vrt::live_blocks();
    const int N = (int)P->threads.size();
    log("[\"st\",0,%d],", (int)vrt::strict_time());
    // thread 0: before the others; the last one: after them
    for (auto &o : P->threads[0]) exec(o);
    {
        std::vector<std::thread> th;
        for (int i = 1; i < N - 1; ++i) th.emplace_back([i]() { for (auto &o : P->threads[i]) exec(o); });
        for (int k = 0; k < 200; ++k)
        {
            vrt::quiesce();
            vrt::order_after_all();
            log("[\"Q\",0,0],");
            if (!vrt::live_threads()) break;
            // let the blocked ones go on
            // through one variable at a time
            const int s = k % (int)P->kinds.size();
            if (P->kinds[s] == QUE || !usable(s)) continue;
            if (base(P->kinds[s]) == GMTX) exec(Op{18, s, 0, 0, 0, 0}); else exec(Op{10, s, 1, 0, 0, 0});
        }
        for (auto &t : th) t.join();
    }
    if (N > 1) for (auto &o : P->threads[N - 1]) exec(o);
    for (int s = 0; s < (int)P->kinds.size(); ++s) if (con(s)) exec(Op{4, s, 0, 0, 0, 0});
    log("[\"E\",0,%d,%d,%d],", vrt::live_sems(), vrt::live_blocks() - blocks0, vrt::linked_names());
}
