// Drives oqpi::thread with programs given as data.
#include "common.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <chrono>
#include <new>
#define OQPI_USE_DEFAULT
#include "oqpi.hpp"

using vrt::log;
using oqpi::thread_attributes;

struct Op { int op, a, b, c, d; };
struct Prog { int rt, refuse; std::vector<std::vector<Op>> bodies; };
static std::vector<Prog> progs;
static const Prog *P;
void harness_load(const char *file)
{
    FILE *f = fopen(file, "r"); if (!f) { perror(file); exit(2); }
    int np; if (fscanf(f, "%d", &np) != 1) exit(2);
    while (np--)
    {
        Prog p; int n, k;
        if (fscanf(f, "%d %d %d", &p.rt, &p.refuse, &n) != 3) exit(2);
        while (n--)
        {
            std::vector<Op> v; if (fscanf(f, "%d", &k) != 1) exit(2);
            while (k--) { Op o; if (fscanf(f, "%d %d %d %d %d", &o.op, &o.a, &o.b, &o.c, &o.d) != 5) exit(2); v.push_back(o); }
            p.bodies.push_back(v);
        }
        progs.push_back(p);
    }
    fclose(f);
}
int harness_programs() { return (int)progs.size(); }

static const int MAXS = 32, MAXK = 40;
#ifdef VERIF_LAYER
// A layer that counts the calls it sees and owns something, which moves along
enum { LJOIN = 1, LDETACH, LJOINABLE, LID, LSAFF, LGAFF, LSPRIO, LGPRIO };
static int seenBy[64][9], tagOf[64];
NOI static int &seen(int op) { return seenBy[vrt::tid() & 63][op]; }
NOI static int &nextTag() { return tagOf[vrt::tid() & 63]; }
struct Tag
{
    int v;
    Tag() : v(nextTag()) {}
    Tag(Tag &&o) : v(o.v) { o.v = 0; }
    Tag &operator=(Tag &&o) { const int x = o.v; o.v = 0; v = x; return *this; }
};
template<typename B> struct LayThread : public B
{
    Tag tag;
    LayThread() = default;
    LayThread(LayThread &&) = default;
    LayThread &operator=(LayThread &&) = default;
    void join() { ++seen(LJOIN); B::join(); }
    void detach() { ++seen(LDETACH); B::detach(); }
    bool joinable() const { ++seen(LJOINABLE); return B::joinable(); }
    typename B::id getId() const { ++seen(LID); return B::getId(); }
    void setCoreAffinityMask(oqpi::core_affinity a) { ++seen(LSAFF); B::setCoreAffinityMask(a); }
    oqpi::core_affinity getCoreAffinityMask() const { ++seen(LGAFF); return B::getCoreAffinityMask(); }
    void setPriority(oqpi::thread_priority p) { ++seen(LSPRIO); B::setPriority(p); }
    oqpi::thread_priority getPriority() const { ++seen(LGPRIO); return B::getPriority(); }
};
using Thread = oqpi::thread_interface<LayThread>;
#define TAG(s) (nextTag() = (s) + 1)
// op: what the layer has to have seen exactly once, 0: nothing in particular
#define LAYER(s, op) LAYERN(s, op, 0)
#define LAYERN(s, op, more) log("[\"ly\",%d,%d,%d,%d,%d],", vrt::tid(), (s) + 1, (op) ? seen(op) - (more) : 1, (op), con(s) ? th(s).tag.v : -1)
#define FRESH() memset(seenBy[vrt::tid() & 63], 0, sizeof seenBy[0])
#else
using Thread = oqpi::thread;
#define TAG(s)
#define LAYER(s, op)
#define LAYERN(s, op, more)
#define FRESH()
#endif
alignas(64) static char mem[MAXS][sizeof(Thread)];
static Thread &th(int s) { return *(Thread *)mem[s]; }
static bool con_[MAXS];
static int inSlot[MAXS];            // launch the slot should refer to, -1: none
static int launches;
static bool released[MAXK], holds[MAXK];     // a launched callable waits until it is released
static unsigned long selfId[MAXK]; static bool started[MAXK], gone[MAXK];
static char setName[64][64];
static long cell[MAXK];             // written by the bodies, read by those who join them
NOI static bool con(int s) { return con_[s]; }
NOI static void setcon(int s, bool b) { con_[s] = b; }
NOI static int &slotOf(int s) { return inSlot[s]; }
NOI static int launch_id() { return launches++; }
static int threadOf_[MAXK];
NOI static int threadOf(int k) { return threadOf_[k]; }
NOI static bool startedBy(int k) { return started[k]; }
NOI static void begun(int k) { selfId[k] = (unsigned long)pthread_self(); started[k] = true; threadOf_[k] = vrt::tid(); }
NOI static void hold(int k) { holds[k] = true; while (!released[k]) vrt::block_on(&released[k]); holds[k] = false; }
NOI static void release(int k) { released[k] = true; vrt::wake(&released[k]); }
NOI static bool held(int k) { return k >= 0 && !released[k]; }
// what the system knows of the running thread of a launch, of any thread
NOI static void log_system(const char *k, int id, int t)
{
    uint32_t c; int p; size_t st;
    if (vrt::thread_system(t, c, p, st)) log("[\"%s\",%d,%d,%d,%d,%d],", k, vrt::tid(), id, (int)c, p, (int)(st >> 10));
}
NOI static void on_refused(int t) { log("[\"f\",%d],", t); }
NOI static void left(int k) { if (k >= 0) gone[k] = true; }
NOI static int who(unsigned long id) { for (int i = MAXK - 1; i >= 0; --i) if (started[i] && !gone[i] && selfId[i] == id) return i; return -1; }
NOI static void on_setname(int t, const char *n) { if (t >= 0 && t < 64) { strncpy(setName[t], n, 63); setName[t][63] = 0; } }
static const char *NAMES[] = {"worker", "a", "", "fifteen letters", "x y/z", "w-2"};
NOI static int name_index(int t) { for (int i = 0; i < 6; ++i) if (!strcmp(setName[t], NAMES[i])) return i; return 99; }

static void ret(int res, int v) { log("[\"r\",%d,%d,%d],", vrt::tid(), res, v); }
static void exec_all(const std::vector<Op> &v);
static int current[64];             // the launch a thread belongs to
// the callables end up here
static void body(int k, int idx, int val, bool argsOk)
{
    begun(k);
    log("[\"b\",%d,%d,%d,%d],", vrt::tid(), k, name_index(vrt::tid()), argsOk ? 1 : 0);
    vrt::point();
    current[vrt::tid()] = k;
    exec_all(P->bodies[idx]);
    why[vrt::tid()] = "C24";
    cell[k] = 2 * val + 1;
    why[vrt::tid()] = nullptr;
    log("[\"e\",%d,%d],", vrt::tid(), k);
}
struct Counted   // an argument whose copies are counted
{
    static long live; int v;
    NOI static void add(int d) { live += d; }
    Counted(int x) : v(x) { add(1); }
    Counted(const Counted &o) : v(o.v) { add(1); }
    Counted(Counted &&o) : v(o.v) { o.v = -5; add(1); }
    ~Counted() { v = -9; add(-1); }
};
long Counted::live;
static void free_function(int k, int idx, int val, std::string s, Counted c) { body(k, idx, val, s == std::string(40, (char)('a' + val)) && c.v == val); }
struct Functor
{
    int k, idx, val; std::string s;
    void operator()(std::unique_ptr<int> p, int extra) { body(k, idx, val, p && *p == val && extra == val + 7 && s == std::string(30, (char)('A' + val))); }
};
struct Const { int k; void operator()(int idx, const Counted &c, const char *s) const { body(k, idx, c.v, !strcmp(s, "text")); } };
struct Object { int k, idx, val; void run(int x) { body(k, idx, val, x == val * 3); } };
static Object objects[MAXK];
static long boxes[MAXK];

static void launch(int s, int k, int form, int idx, const thread_attributes &at, int val, int from)
{
    const std::string &n = at.name_;
    TAG(s);
    const bool plain = at.stackSize_ == 0 && at.coreAffinityMask_ == oqpi::core_affinity::all_cores && at.priority_ == oqpi::thread_priority::normal;
    auto put = [&](Thread &&t) { if (con(s)) th(s) = std::move(t); else { new (mem[s]) Thread(std::move(t)); setcon(s, true); } };
    switch (form)
    {
    case 0:
        if (!con(s) && plain) { new (mem[s]) Thread(n, [k, idx, val]() { body(k, idx, val, true); }); setcon(s, true); }
        else if (!con(s)) { new (mem[s]) Thread(at, [k, idx, val]() { body(k, idx, val, true); }); setcon(s, true); }
        else put(Thread(at, [k, idx, val]() { body(k, idx, val, true); }));
        break;
    case 1:
    {
        int kk = k, ii = idx, vv = val; std::string str(40, (char)('a' + val)); Counted c(val);
        Thread t(at, free_function, kk, ii, vv, str, c);
        // the thread has its own copies
        kk = 38; ii = 0; vv = -3; str[0] = '?'; str += "changed"; c.v = -4;
        put(std::move(t));
        break;
    }
    case 2:
    {
        Functor f{k, idx, val, std::string(30, (char)('A' + val))}; int extra = val + 7;
        Thread t(at, f, std::unique_ptr<int>(new int(val)), extra);
        f.k = 38; f.val = -2; f.s.assign(50, '?'); extra = -1;
        put(std::move(t));
        break;
    }
    case 3:
    {
        // arguments by reference refer to the original
        long &box = boxes[k];
        box = 0;
        put(Thread(at, [k, idx, val](long &b, Counted c) { body(k, idx, val, &b == &boxes[k] && c.v == val); why[vrt::tid()] = "C24"; b = val; why[vrt::tid()] = nullptr; }, std::ref(box), Counted(val)));
        break;
    }
    case 4:
    {
        const Const f{k}; const Counted c(val);
        put(Thread(at, f, idx, c, "text"));
        break;
    }
    case 5:
    {
        // a thread handed over to another one: from the slot 'from' of the launcher to a slot of the body
        const int to = from / 100; const int src = from % 100; const int held = slotOf(src);
        slotOf(src) = -1;
        put(Thread(at, [k, idx, val, to, held](Thread t, int) {
            log("[\"c\",%d,\"take\",%d,%d,0,0],", vrt::tid(), to + 1, k);
            if (con(to)) th(to) = std::move(t); else { new (mem[to]) Thread(std::move(t)); setcon(to, true); }
            slotOf(to) = held;
            LAYER(to, 0);
            ret(th(to).joinable(), t.joinable());
            body(k, idx, val, true); }, std::move(th(src)), 1));
        break;
    }
    case 6:
        objects[k] = Object{k, idx, val};
        put(Thread(at, &Object::run, &objects[k], val * 3));
        break;
    }
    slotOf(s) = th(s).joinable() ? k : -1;
}
// op: 1 launch (slot, body, form*10+name, value [+ 1000*(100*to+from+1) for a handover]), 2 default, 3 move construct, 4 move assign,
//     5 join, 6 detach, 7 joinable, 8 destroy, 9 identify, 10 nap
// attributes: the launch is preceded by 11 (stack in kB, cores, priority); of a thread that is held:
//     12 set cores, 13 get cores, 14 set priority, 15 get priority, 16 core by number, 17 what the system knows, 18 release;
//     of the thread itself: 19 wait for the release, 20 set cores, 21 core by number, 22 set priority, 23 what the system knows
// 24 workers of a scheduler: (count, name, 1: with a second configuration, 2: the default ones, 3: as many as by default; 4, 5: as 0, 1 without a context), attributes by 11
static const int MASKS[] = {-1, 1, 2, 128, 255, 0x55, 6};
static oqpi::core_affinity mask(int i) { return oqpi::core_affinity((uint32_t)MASKS[i]); }
static oqpi::thread_priority priority(int i) { return oqpi::thread_priority(i); }
static int wNames, wThread[16];
static char wName[64];
NOI static void worker_here(int t, int set) { if (wNames < 16) wThread[wNames++] = t + 100 * set; }
// the number of the configuration whose name this is, followed by the number of the worker; 9: of none
NOI static int set_of(const char *n, int id)
{
    char buf[80];
    for (int i = 0; i < 2; ++i)
    {
        if (id < 0) snprintf(buf, sizeof buf, "%s", i ? "second" : wName);
        else snprintf(buf, sizeof buf, "%s%d", i ? "second" : wName, id);
        if (!strcmp(buf, n)) return i;
    }
    return 9;
}
template<typename _Base> struct WCT : _Base
{
    WCT(oqpi::worker_base *o) : _Base(o) {}
    void onStart()
    {
        const int t = vrt::tid(), id = this->owner()->getId();
        const std::string n = this->owner()->getName();
        const int set = set_of(n.c_str(), id);
        worker_here(t, set);
        log("[\"wb\",%d,%d,%d,%d],", t, id, n == setName[t], set);
    }
};
// workers without contexts are known by the names of their threads
NOI static void workers_by_name(int from)
{
    for (int t = from; t < vrt::threads() && t < 64; ++t) if (strcmp(setName[t], "?none"))
        for (int id = -1; id < 10; ++id)
        {
            const int set = set_of(setName[t], id);
            if (set == 9) continue;
            worker_here(t, set);
            log("[\"wb\",%d,%d,1,%d],", t, id, set);
            break;
        }
}
using WC = WCT<oqpi::worker_context_base>;
using Help = oqpi::helpers<oqpi::scheduler<concurrent_queue>>;
NOI static void new_scheduler() { new (&Help::scheduler()) oqpi::scheduler<concurrent_queue>; }
static void drop_scheduler() { using S = oqpi::scheduler<concurrent_queue>; Help::scheduler().~S(); }
static thread_local Op next = {11, 0, 0, 2, 0};
static void exec(const Op &o)
{
    const int s = o.a;
    vrt::point();
    FRESH();
    auto joinable = [&](int x) { return con(x) && th(x).joinable(); };
    auto call = [&](const char *op, int a, int b, int c) { log("[\"c\",%d,\"%s\",%d,%d,%d,0],", vrt::tid(), op, a, b, c); };
    if (o.op >= 12 && o.op <= 18 && !(con(s) && held(slotOf(s)))) return;
    switch (o.op)
    {
    case 11: next = o; return;
    case 12: call("saff", slotOf(s), MASKS[o.b], 0); th(s).setCoreAffinityMask(mask(o.b)); LAYER(s, LSAFF); ret(0, 0); return;
    case 13: call("gaff", slotOf(s), 0, 0); { const int v = (int)th(s).getCoreAffinityMask(); LAYER(s, LGAFF); ret(v, 0); return; }
    case 14: call("sprio", slotOf(s), o.b, 0); th(s).setPriority(priority(o.b)); LAYER(s, LSPRIO); ret(0, 0); return;
    case 15: call("gprio", slotOf(s), 0, 0); { const int v = (int)th(s).getPriority(); LAYER(s, LGPRIO); ret(v, 0); return; }
    case 16: call("saff", slotOf(s), 1 << o.b, 0); th(s).setCoreAffinity(o.b); LAYER(s, LSAFF); ret(0, 0); return;
    case 17: { const int k = slotOf(s); if (startedBy(k)) log_system("y", k, threadOf(k)); return; }
    case 18: { const int k = slotOf(s); release(k); return; }
    case 19: hold(current[vrt::tid()]); return;
    case 20: call("saff", current[vrt::tid()], MASKS[o.b], 0); oqpi::this_thread::set_affinity_mask(mask(o.b)); ret(0, 0); return;
    case 21: call("saff", current[vrt::tid()], 1 << o.b, 0); oqpi::this_thread::set_affinity((uint32_t)o.b); ret(0, 0); return;
    case 22: call("sprio", current[vrt::tid()], o.b, 0); oqpi::this_thread::set_priority(priority(o.b)); ret(0, 0); return;
    case 23: log_system("y", current[vrt::tid()], vrt::tid()); return;
    case 24:
    {
        using S = oqpi::scheduler<concurrent_queue>;
        oqpi::worker_config wc;
        wc.threadAttributes = thread_attributes(NAMES[o.b], (uint32_t)next.a << 10, mask(next.b), priority(next.c));
        wc.count = o.a;
        const int online = (int)sysconf(_SC_NPROCESSORS_ONLN);
        if (o.c == 3 && online > 14) return;
        vrt::system_limits(P->rt, 0);
        if (o.c % 4 >= 2) log("[\"c\",%d,\"workers\",%d,-1,%d,0,0],", vrt::tid(), o.c == 3 ? online : o.a, (int)oqpi::thread_priority::highest);
        else log("[\"c\",%d,\"workers\",%d,%d,%d,%d,%d],", vrt::tid(), o.a, MASKS[next.b], next.c, next.a, o.c % 4);
        strcpy(wName, o.c % 4 >= 2 ? "oqpi::worker_" : NAMES[o.b]);
        const int before = vrt::threads();
        auto system = [&] { vrt::quiesce(); if (o.c >= 4) workers_by_name(before); for (int i = 0; i < wNames; ++i) log_system("wy", i + 100 * (wThread[i] / 100), wThread[i] % 100); };
        if (o.c % 4 >= 2)
        {
            new_scheduler();
            if (o.c == 3) Help::start_default_scheduler<oqpi::worker_context_container<WC>>();
            else Help::start_default_scheduler<oqpi::worker_context_container<WC>>(o.a);
            system();
            Help::stop_scheduler();
            drop_scheduler();
        }
        else
        {
            S sc;
            if (o.c % 4)
            {
                oqpi::worker_config two[2] = {wc, wc};
                two[1].threadAttributes = thread_attributes("second", 256 << 10, oqpi::core_affinity::core1, oqpi::thread_priority::lowest);
                two[1].count = 1;
                if (o.c >= 4) sc.registerWorkers<Thread, oqpi::semaphore_interface<>>(two);
                else sc.registerWorkers<Thread, oqpi::semaphore_interface<>, oqpi::worker_context_container<WC>>(two);
            }
            else if (o.c >= 4) sc.registerWorker<Thread, oqpi::semaphore_interface<>>(wc);
            else sc.registerWorker<Thread, oqpi::semaphore_interface<>, oqpi::worker_context_container<WC>>(wc);
            sc.start();
            system();
            sc.stop();
        }
        wNames = 0;
        next = Op{11, 0, 0, 2, 0};
        ret(0, 0);
        return;
    }
    case 1:
    {
        if (joinable(s)) break;
        const int form = o.c / 10, name = o.c % 10, val = o.d % 1000, from = o.d / 1000 - 1;
        if (form == 5 && (!con(from % 100) || from % 100 == s || joinable(from / 100))) break;
        const int k = launch_id();
        if (k >= 24) break;
        log("[\"c\",%d,\"new\",%d,%d,%d,%d,%d,%d,%d,%d],", vrt::tid(), s + 1, k, name, val, form == 5 ? from % 100 + 1 : 0, MASKS[next.b], next.c, next.a);
        vrt::system_limits(P->rt, form == 5 ? 0 : P->refuse);
        launch(s, k, form, o.b, thread_attributes(NAMES[name], (uint32_t)next.a << 10, mask(next.b), priority(next.c)), val, from);
        next = Op{11, 0, 0, 2, 0};
        LAYER(s, 0);
        if (form == 5) LAYER(from % 100, 0);
        ret(th(s).joinable(), form == 5 ? th(from % 100).joinable() : 0);
        break;
    }
    case 2: if (con(s)) break; log("[\"c\",%d,\"def\",%d,0,0,0],", vrt::tid(), s + 1); TAG(s); new (mem[s]) Thread; setcon(s, true); slotOf(s) = -1; LAYER(s, 0); ret(th(s).joinable(), 0); break;
    case 3: if (con(s) || !con(o.b)) break; log("[\"c\",%d,\"mov\",%d,%d,0,0],", vrt::tid(), s + 1, o.b + 1); new (mem[s]) Thread(std::move(th(o.b))); setcon(s, true);
            slotOf(s) = slotOf(o.b); slotOf(o.b) = -1; LAYER(s, 0); LAYER(o.b, 0); ret(th(s).joinable(), th(o.b).joinable()); break;
    case 4: if (!con(s) || !con(o.b) || (joinable(s) && s != o.b)) break; log("[\"c\",%d,\"mov\",%d,%d,0,0],", vrt::tid(), s + 1, o.b + 1); th(s) = std::move(th(o.b));
            if (s != o.b) { slotOf(s) = slotOf(o.b); slotOf(o.b) = -1; } LAYER(s, 0); LAYER(o.b, 0); ret(th(s).joinable(), th(o.b).joinable()); break;
    case 5:
    {
        if (!con(s)) break;
        log("[\"c\",%d,\"join\",%d,0,0,0],", vrt::tid(), s + 1);
        const int k = slotOf(s);
        th(s).join();
        LAYER(s, LJOIN);
        int v = -1;
        if (k >= 0) { why[vrt::tid()] = "C24"; v = (int)cell[k]; why[vrt::tid()] = nullptr; }
        left(k); slotOf(s) = -1;
        ret(th(s).joinable(), v);
        break;
    }
    case 6: if (!con(s)) break; log("[\"c\",%d,\"detach\",%d,0,0,0],", vrt::tid(), s + 1); th(s).detach(); LAYER(s, LDETACH); slotOf(s) = -1; ret(th(s).joinable(), 0); break;
    case 7: if (!con(s)) break; log("[\"c\",%d,\"joinable\",%d,0,0,0],", vrt::tid(), s + 1); FRESH(); { const bool v = th(s).joinable(); LAYER(s, LJOINABLE); ret(v, 0); } break;
    case 8: if (!con(s) || joinable(s)) break; log("[\"c\",%d,\"del\",%d,0,0,0],", vrt::tid(), s + 1); th(s).~Thread(); setcon(s, false); ret(0, 0); break;
    case 9:
    {
        if (!con(s)) break;
        log("[\"c\",%d,\"id\",%d,0,0,0],", vrt::tid(), s + 1);
        int k = -1, n = 0;
        if (joinable(s)) for (int i = 0; i < 200 && (++n, k = who((unsigned long)th(s).getId())) < 0; ++i) oqpi::this_thread::sleep_for(std::chrono::milliseconds(10));
        LAYERN(s, LID, n - 1);
        ret(k, 0);
        break;
    }
    case 10: oqpi::this_thread::sleep_for(std::chrono::microseconds(o.a)); break;
    }
}
static void exec_all(const std::vector<Op> &v) { for (auto &o : v) exec(o); }
NOI static void reset()
{
    for (int i = 0; i < MAXS; ++i) { con_[i] = false; inSlot[i] = -1; }
    for (int i = 0; i < MAXK; ++i) { started[i] = gone[i] = false; cell[i] = 0; released[i] = holds[i] = false; }
    wNames = 0;
    for (auto &n : setName) strcpy(n, "?none");
    launches = 0; Counted::live = 0;
}
NOI static long counted() { return Counted::live; }
void harness_run(int prog)
{
    P = &progs[prog];
    vrt::on_setname = on_setname;
    vrt::on_refused = on_refused;
    vrt::system_limits(P->rt, P->refuse);
    reset();
    next = Op{11, 0, 0, 2, 0};
    const int blocks = vrt::live_blocks();
    log("[\"rt\",0,%d],", P->rt);
    exec_all(P->bodies[0]);
    for (int k = 0; k < MAXK; ++k) release(k);
    vrt::quiesce();
    vrt::order_after_all();
    log("[\"Q\",0],");
    for (int s = 0; s < MAXS; ++s) if (con(s) && th(s).joinable()) exec(Op{5, s, 0, 0, 0});
    for (int s = 0; s < MAXS; ++s) if (con(s)) exec(Op{8, s, 0, 0, 0});
    log("[\"E\",0,%d,%d],", (int)counted(), vrt::live_blocks() - blocks);
}
