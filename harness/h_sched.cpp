// Drives the scheduler, tasks, groups and parallel loops of the library with programs given as
// data, and records what can be observed through its public interface.
#include "common.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <chrono>
#define OQPI_USE_DEFAULT
#include "oqpi.hpp"

using namespace oqpi;
using vrt::log;

// ------------------------------------------------------------------ programs
struct Op { int op, a, b; };
struct NodeD { int kind, prio, waitable, parent, max, late; std::vector<Op> body; };
struct PforD { int variant, first, last, maxb, grab, prio; };
struct WorkerD { int mask, count; };
struct Prog { std::vector<WorkerD> workers; std::vector<NodeD> nodes; std::vector<PforD> pfors; std::vector<std::vector<Op>> clients; int gates, timed; };
static std::vector<Prog> progs;
static const Prog *P;

static void rd_ops(FILE *f, std::vector<Op> &v) { int n; if (fscanf(f, "%d", &n) != 1) abort(); while (n--) { Op o; if (fscanf(f, "%d %d %d", &o.op, &o.a, &o.b) != 3) abort(); v.push_back(o); } }
static void drop_scheduler();
void harness_load(const char *file)
{
    FILE *f = fopen(file, "r"); if (!f) { perror(file); exit(2); }
    int np; if (fscanf(f, "%d", &np) != 1) exit(2);
    while (np--)
    {
        Prog p; int n;
        if (fscanf(f, "%d %d", &p.gates, &p.timed) != 2) exit(2);
        if (fscanf(f, "%d", &n) != 1) exit(2);
        while (n--) { WorkerD w; if (fscanf(f, "%d %d", &w.mask, &w.count) != 2) exit(2); p.workers.push_back(w); }
        if (fscanf(f, "%d", &n) != 1) exit(2);
        p.nodes.push_back(NodeD{});
        while (n--) { NodeD d; if (fscanf(f, "%d %d %d %d %d %d", &d.kind, &d.prio, &d.waitable, &d.parent, &d.max, &d.late) != 6) exit(2); rd_ops(f, d.body); p.nodes.push_back(d); }
        if (fscanf(f, "%d", &n) != 1) exit(2);
        while (n--) { PforD d; if (fscanf(f, "%d %d %d %d %d %d", &d.variant, &d.first, &d.last, &d.maxb, &d.grab, &d.prio) != 6) exit(2); p.pfors.push_back(d); }
        if (fscanf(f, "%d", &n) != 1) exit(2);
        while (n--) { std::vector<Op> v; rd_ops(f, v); p.clients.push_back(v); }
        progs.push_back(p);
    }
    fclose(f);
    drop_scheduler();       // every run has its own
}
int harness_programs() { return (int)progs.size(); }

// ------------------------------------------------------------------ bookkeeping of the harness, invisible to the runtime
static int uidToNode[8192]; static void *ownerOf[256]; static int ownerId[256]; static int nOwners;
static bool gateOpen[8]; static char gateObj[8];
static int workerOf[64];
static bool givenTo[1600];
NOI static void book_reset() { memset(uidToNode, 0, sizeof uidToNode); memset(givenTo, 0, sizeof givenTo); nOwners = 0; memset(gateOpen, 0, sizeof gateOpen); for (auto &w : workerOf) w = -1; }
NOI static void book_uid(uint64_t uid, int n) { uidToNode[uid & 8191] = n; }
NOI static int book_node(uint64_t uid) { return uidToNode[uid & 8191]; }
NOI static void book_owner(void *p, int id) { for (int i = 0; i < nOwners; ++i) if (ownerOf[i] == p) { ownerId[i] = id; return; } if (nOwners < 256) { ownerOf[nOwners] = p; ownerId[nOwners++] = id; } }
NOI static int book_id(void *p) { for (int i = 0; i < nOwners; ++i) if (ownerOf[i] == p) return ownerId[i]; return -1; }
NOI static bool gate_is_open(int g) { return gateOpen[g]; }
NOI static void gate_open(int g) { gateOpen[g] = true; }
NOI static void set_why(const char *w) { why[vrt::tid()] = w; }
struct Why { const char *old; NOI Why(const char *w) { old = why[vrt::tid()]; why[vrt::tid()] = w; } NOI ~Why() { why[vrt::tid()] = old; } };
#define EV(k, ...) log("[\"" k "\",%d" 
// events are steps of the schedules of the specification, apart from those it knows nothing of
NOI static void gate_event(const char *k)
{
    static const char *no[] = {"B", "X", "E", "D", "F", "cd", "ba", "tx", "kx", "kC", "hC", "hX", "gC", "gX", "hi", "hu", "vS", "vT", "vI", "vA", "v1", "v2"};
    for (auto n : no) if (!strcmp(n, k)) return;
    vrt::gate(1);
    vrt::user_point();
}
static void ev0(const char *k) { gate_event(k); log("[\"%s\",%d],", k, vrt::tid()); }
static void ev1(const char *k, int a) { gate_event(k); log("[\"%s\",%d,%d],", k, vrt::tid(), a); }
static void ev2(const char *k, int a, int b) { gate_event(k); log("[\"%s\",%d,%d,%d],", k, vrt::tid(), a, b); }
static void ev3(const char *k, int a, int b, int c) { gate_event(k); log("[\"%s\",%d,%d,%d,%d],", k, vrt::tid(), a, b, c); }
static uint64_t t0;
static int now_us() { return (int)((vrt::now() - t0) / 1000); }

// ------------------------------------------------------------------ contexts
static int parseNode(const std::string &s)
{
    if (s[0] == 'n') return atoi(s.c_str() + 1);
    if (s[0] == 'p') return 1000 + 64 * atoi(s.c_str() + 1);
    return 0;
}
// contexts given to a helper (1) are others than the default ones (0)
NOI static void giving(int n) { if (n >= 0 && n < 1600) givenTo[n] = true; }
NOI static bool is_given(int n) { return n >= 0 && n < 1600 && givenTo[n]; }
static void right_context(int n, int c) { if (is_given(n) != (c != 0)) ev1("tx", n); }
template<int C> struct TCA : task_context_base
{
    int n, batch;
    TCA(task_base *o, const std::string &name) : task_context_base(o, name), n(parseNode(name)), batch(0)
    {
        if (name.compare(0, 6, "Batch ") == 0) { batch = atoi(name.c_str() + 6); }
        else { book_uid(o->getUID(), n); right_context(n, C); }
    }
    ~TCA() { ev1("D", n); }
    void onAddedToGroup(const task_group_sptr &g)
    {
        int gid = book_id(g.get());
        if (batch) { n = gid + batch; book_uid(owner()->getUID(), n); right_context(gid, C); }
        ev2("hg", n, gid);
    }
    void onPreExecute()  { ev1("hA", n); }
    void onPostExecute() { ev1("hY", n); }
};
struct TCB : task_context_base
{
    int n, batch;
    TCB(task_base *o, const std::string &name) : task_context_base(o, name), n(parseNode(name)), batch(0) { if (name.compare(0, 6, "Batch ") == 0) batch = atoi(name.c_str() + 6); }
    void onAddedToGroup(const task_group_sptr &g) { int gid = book_id(g.get()); if (batch) n = gid + batch; ev2("hi", n, gid); }
    void onPreExecute()  { ev1("hB", n); }
    void onPostExecute() { ev1("hZ", n); }
};
// the second of three contexts
struct TCC : task_context_base
{
    int n, batch;
    TCC(task_base *o, const std::string &name) : task_context_base(o, name), n(parseNode(name)), batch(0) { if (name.compare(0, 6, "Batch ") == 0) batch = atoi(name.c_str() + 6); else ev1("kC", n); }
    void onAddedToGroup(const task_group_sptr &g) { if (batch) { n = book_id(g.get()) + batch; ev1("kC", n); } }
    void onPreExecute()  { ev1("hC", n); }
    void onPostExecute() { ev1("hX", n); }
};
template<int C> struct GCA : group_context_base
{
    int n;
    GCA(task_group_base *o, const std::string &name) : group_context_base(o, name), n(parseNode(name)) { book_owner(o, n); book_uid(o->getUID(), n); right_context(n, C); }
    ~GCA() { ev1("D", n); }
    void onAddedToGroup(const task_group_sptr &g) { ev2("hg", n, book_id(g.get())); }
    void onTaskAdded(const task_handle &h) { ev2("ht", n, book_node(h.getUID())); }
    void onPreExecute()  { ev1("gA", n); }
    void onPostExecute() { ev1("gY", n); }
};
struct GCB : group_context_base
{
    int n;
    GCB(task_group_base *o, const std::string &name) : group_context_base(o, name), n(parseNode(name)) {}
    void onAddedToGroup(const task_group_sptr &g) { ev2("hi", n, book_id(g.get())); }
    void onTaskAdded(const task_handle &h) { ev2("hu", n, book_node(h.getUID())); }
    void onPreExecute()  { ev1("gB", n); }
    void onPostExecute() { ev1("gZ", n); }
};
struct GCC : group_context_base
{
    int n;
    GCC(task_group_base *o, const std::string &name) : group_context_base(o, name), n(parseNode(name)) { ev1("kC", n); }
    void onPreExecute()  { ev1("gC", n); }
    void onPostExecute() { ev1("gX", n); }
};
NOI static void set_worker(int w) { workerOf[vrt::tid()] = w; }
static int worker_index(worker_base *o) { std::string s = o->getName(); int b = atoi(s.c_str() + 1); size_t u = s.find('_'); return b + (u + 1 < s.size() ? atoi(s.c_str() + u + 1) : 0); }
struct WCA : worker_context_base
{
    WCA(worker_base *o) : worker_context_base(o) {}
    int idx() const { return worker_index(owner()); }
    void onStart()  { set_worker(idx()); ev1("wS", idx()); }
    void onStop()   { ev1("wT", idx()); }
    void onIdle()   { ev1("wI", idx()); }
    void onActive() { ev1("wA", idx()); }
    void onPreExecute(const task_handle &h)  { ev2("w1", idx(), book_node(h.getUID())); }
    void onPostExecute(const task_handle &h) { if (P->timed) ev3("w2", idx(), book_node(h.getUID()), now_us()); else ev2("w2", idx(), book_node(h.getUID())); }
};
struct WCB : worker_context_base
{
    WCB(worker_base *o) : worker_context_base(o) {}
    int idx() const { return worker_index(owner()); }
    void onStart()  { ev1("vS", idx()); }
    void onStop()   { ev1("vT", idx()); }
    void onIdle()   { ev1("vI", idx()); }
    void onActive() { ev1("vA", idx()); }
    void onPreExecute(const task_handle &h)  { ev2("v1", idx(), book_node(h.getUID())); }
    void onPostExecute(const task_handle &h) { ev2("v2", idx(), book_node(h.getUID())); }
};
using GC0 = group_context_container<GCA<0>, GCB>;
using TC0 = task_context_container<TCA<0>, TCB>;
using GC = group_context_container<GCA<1>, GCC, GCB>;
using TC = task_context_container<TCA<1>, TCC, TCB>;
using WC = worker_context_container<WCA, WCB>;
using H  = helpers<scheduler<concurrent_queue>, GC0, TC0>;
using S  = scheduler<concurrent_queue>;

// ------------------------------------------------------------------ user data
static long cells[512];
static long pcells[8][256];
static std::vector<int> leavesOf[512], beforeOf[512];

// ------------------------------------------------------------------ bodies
// what a task returns: tells when it was moved away or never assigned
struct Val
{
    int v;
    Val() : v(-2) {}
    explicit Val(int x) : v(x) {}
    Val(const Val &o) : v(o.v) {}
    Val(Val &&o) : v(o.v) { o.v = -1; }
    Val &operator =(const Val &o) { v = o.v; return *this; }
    Val &operator =(Val &&o) { int x = o.v; o.v = -1; v = x; return *this; }
};
struct Slot;
static void exec_ops(const std::vector<Op> &ops, Slot &s, int holder);
struct Body
{
    int n; Slot *slot;
    Body(int n_, Slot *s) : n(n_), slot(s) {}
    Body(Body &&o) : n(o.n), slot(o.slot) { o.n = -1; o.slot = nullptr; }
    Body(const Body &) = delete;
    ~Body();
    Val operator()();
    void run();
};
// a function without result
struct BodyV { Body b; void operator()() { b.run(); } };
// functions with arguments
static void args_ok(int n, int a, const std::string &s, const std::vector<int> &v) { ev2("ba", n, a == 3 * n && s == "argument" + std::to_string(n) && v == std::vector<int>({n, 7})); }
struct BodyA { Body b; Val operator()(int a, const std::string &s, std::vector<int> v) { args_ok(b.n, a, s, v); return b(); } };
struct BodyVA { Body b; void operator()(int a, const std::string &s, std::vector<int> v) { args_ok(b.n, a, s, v); b.run(); } };
using TWp = decltype(H::make_task<task_type::waitable>(std::string(), task_priority::normal, std::declval<Body>()));
using TFp = decltype(H::make_task<task_type::fire_and_forget>(std::string(), task_priority::normal, std::declval<BodyV>()));
struct Handle { task_handle h; TWp tw; TFp tf; };
struct Late { Slot *body; std::vector<task_handle> kids; };
struct Slot { std::vector<Handle> v; std::vector<Late> late; Slot() : v(P->nodes.size()), late(P->nodes.size()) {} };
Body::~Body() { if (n >= 0) { ev1("F", n); delete slot; } }

static void read_leaves(int n, const char *w) { Why y(w); for (int l : leavesOf[n]) { volatile long x = cells[l]; (void)x; } }
void Body::run()
{
    ev1("bs", n);
    { Why y("C04"); for (int l : beforeOf[n]) { volatile long x = cells[l]; (void)x; } }
    { Why y("user"); cells[n] = n * 10; }
    exec_ops(P->nodes[n].body, *slot, n);
    vrt::point();
    { Why y("user"); cells[n] = 1000 + n; }
    if (P->timed) ev2("be", n, now_us()); else ev1("be", n);
}
Val Body::operator()() { const int r = 1000 + n; run(); return Val(r); }

// ------------------------------------------------------------------ parallel loops
static void iter(int p, int b, int i)
{
    ev3("it", p, b, i);
    { Why y("user"); if (i >= -16 && i < 240) pcells[p][i + 16] = i + 1; }
    vrt::point();
    ev3("iz", p, b, i);
}
// the functions of loops own something, which isn't there any more after a move or the end of their life
struct Loop
{
    std::vector<int> p;
    volatile int alive = 1;
    explicit Loop(int q) : p(1, q) {}
    Loop(const Loop &o) : p(o.p) {}
    Loop(Loop &&o) : p(std::move(o.p)) {}
    ~Loop() { alive = 0; }
    void go(int b, int i) const { if (!alive || p.empty()) ev3("it", 0, -1, 1000); else iter(p[0], b, i); }
};
struct Loop1 : Loop { using Loop::Loop; void operator()(int i) const { go(-1, i); } };
struct Loop2 : Loop { using Loop::Loop; void operator()(int b, int i) const { go(b, i); } };
struct LoopE : Loop { using Loop::Loop; void operator()(int &i) const { const int k = i; i += 500; go(-1, k); i += 500; } };
static void run_pfor(int p)
{
    const PforD &d = P->pfors[p];
    std::string name = "p" + std::to_string(p);
    const int id = 1000 + 64 * p;
    const auto prio = task_priority(d.prio);
    const Loop2 f2(p);
    const Loop1 f1(p);
    auto elements = [&]() { std::vector<int> v; for (int i = 0; i < d.last; ++i) v.push_back(i); return v; };
    auto changed = [&](const std::vector<int> &v) { bool ok = int(v.size()) == d.last; for (int i = 0; i < d.last; ++i) ok = ok && v[i] == i + 1000; ev2("pv", p, ok); };
    ev1("pc", p);
    switch (d.variant)
    {
    case 0: H::parallel_for(name, d.last, f2); break;
    case 1: H::parallel_for(name, d.first, d.last, f2); break;
    case 2: H::parallel_for(name, simple_partitioner(d.first, d.last, d.maxb), prio, f2); break;
    case 3: H::parallel_for(name, atomic_partitioner(d.first, d.last, d.grab, d.maxb), prio, f2); break;
    case 4: H::parallel_for(name, d.first, d.last, f1); break;
    case 5: H::parallel_for(name, atomic_partitioner(d.last, d.grab, d.maxb), prio, f1); break;
    case 6: { auto v = elements(); H::parallel_for_each(name, v, LoopE(p)); changed(v); break; }
    case 7: { auto v = elements(); H::parallel_for_each(name, v, simple_partitioner(d.last, d.maxb), prio, LoopE(p)); changed(v); break; }
    case 8: giving(id); H::parallel_for<GC, TC>(name, d.last, f2); break;
    case 9:
    {
        // function and partitioner are gone when the loop is executed
        auto f = std::make_unique<Loop2>(p);
        alignas(simple_partitioner) char mem[sizeof(simple_partitioner)];
        auto part = new (mem) simple_partitioner(d.first, d.last, d.maxb);
        auto g = H::make_parallel_for_task_group<task_type::waitable>(name, *part, prio, *f);
        f.reset();
        part->~simple_partitioner(); new (mem) simple_partitioner(200, 203, 2);
        if (g) { task_handle h(g); g.reset(); H::schedule_task(h); h.wait(); }
        break;
    }
    case 10:
    {
        auto f = std::make_unique<Loop2>(p);
        alignas(atomic_partitioner) char mem[sizeof(atomic_partitioner)];
        auto part = new (mem) atomic_partitioner(d.first, d.last, d.grab, d.maxb);
        giving(id);
        auto g = H::make_parallel_for_task_group<task_type::waitable, GC, TC>(name, *part, prio, std::move(*f));
        f.reset();
        part->~atomic_partitioner(); new (mem) atomic_partitioner(200, 203, 1, 2);
        if (g) { task_handle h(g); g.reset(); h = H::schedule_task(std::move(h)); h.activeWait(); }
        break;
    }
    case 11: { giving(id); auto v = elements(); H::parallel_for_each<GC, TC>(name, v, atomic_partitioner(d.last, d.grab, d.maxb), prio, LoopE(p)); changed(v); break; }
    case 12: giving(id); H::parallel_for<GC, TC>(name, d.first, d.last, Loop1(p)); break;
    case 13: giving(id); H::parallel_for<GC, TC>(name, simple_partitioner(d.first, d.last, d.maxb), prio, Loop2(p)); break;
    }
    ev1("pr", p);
    { Why y("C14"); for (int i = d.first; i < d.last; ++i) { volatile long x = pcells[p][i + 16]; (void)x; } }
}

// ------------------------------------------------------------------ created and scheduled in one go
template<task_type _Type>
static task_handle make_group_now(const NodeD &d, const std::string &name, task_priority prio, int v, std::vector<task_handle> &k)
{
    const bool plain = prio == task_priority::normal;
    auto call = [&k](auto f) -> task_handle
    {
        switch (k.size())
        {
        case 1: return f(task_handle(k[0]));
        case 2: return f(task_handle(k[0]), std::move(k[1]));
        case 3: return f(task_handle(k[0]), std::move(k[1]), task_handle(k[2]));
        default: return f(task_handle(k[0]), std::move(k[1]), task_handle(k[2]), std::move(k[3]));
        }
    };

    if (d.kind == 1)
    {
        if (plain && v % 4 == 0) return call([&](auto &&...h) { return H::sequence_tasks<_Type>(name, std::forward<decltype(h)>(h)...); });
        if (plain && v % 4 == 1) return giving(parseNode(name)), call([&](auto &&...h) { return H::sequence_tasks<_Type, GC>(name, std::forward<decltype(h)>(h)...); });
        if (v % 2) return giving(parseNode(name)), call([&](auto &&...h) { return H::sequence_tasks<_Type, GC>(name, prio, std::forward<decltype(h)>(h)...); });
        return call([&](auto &&...h) { return H::sequence_tasks<_Type>(name, prio, std::forward<decltype(h)>(h)...); });
    }
    if (plain && v % 3 == 0) return call([&](auto &&...h) { return H::fork_tasks<_Type>(name, std::forward<decltype(h)>(h)...); });
    if (v % 3 == 1) return giving(parseNode(name)), call([&](auto &&...h) { return H::fork_tasks<_Type, GC>(name, prio, std::forward<decltype(h)>(h)...); });
    return call([&](auto &&...h) { return H::fork_tasks<_Type>(name, prio, std::forward<decltype(h)>(h)...); });
}
static void make_now(Slot &s, int n, int v)
{
    const NodeD &d = P->nodes[n];
    const auto prio = task_priority(d.prio);
    const bool plain = prio == task_priority::normal;
    const std::string name = "n" + std::to_string(n);
    task_handle h;
    if (d.kind == 0)
    {
        Body b(n, s.late[n].body);
        std::string a = "argument" + std::to_string(n);
        std::vector<int> l = {n, 7};
        if (d.waitable)
        {
            if (plain && v == 0) h = H::schedule_task(name, std::move(b));
            else if (plain && v == 1) giving(n), h = H::schedule_task<TC>(name, std::move(b));
            else if (plain && v == 2) h = H::schedule_task(name, BodyA{std::move(b)}, 3 * n, a, l);
            else if (v == 3) giving(n), h = H::schedule_task<TC>(name, prio, std::move(b));
            else if (v == 4) giving(n), h = H::schedule_task<task_type::waitable, TC>(name, prio, std::move(b));
            else if (v == 5) h = H::schedule_task(name, prio, BodyA{std::move(b)}, 3 * n, a, l);
            else h = H::schedule_task(name, prio, std::move(b));
        }
        else
        {
            if (plain && v == 0) H::fire_and_forget_task(name, BodyV{std::move(b)});
            else if (plain && v == 1) giving(n), H::fire_and_forget_task<TC>(name, BodyV{std::move(b)});
            else if (plain && v == 2) H::fire_and_forget_task(name, BodyVA{std::move(b)}, 3 * n, a, l);
            else if (v == 3) giving(n), H::fire_and_forget_task<TC>(name, prio, BodyV{std::move(b)});
            else if (v == 4) giving(n), H::fire_and_forget_task<TC>(name, prio, BodyVA{std::move(b)}, 3 * n, a, l);
            else if (v == 5) H::fire_and_forget_task(name, prio, BodyVA{std::move(b)}, 3 * n, a, l);
            else H::fire_and_forget_task(name, prio, BodyV{std::move(b)});
        }
        a = "something else"; l.clear();
    }
    else
    {
        std::vector<task_handle> k = std::move(s.late[n].kids);
        h = d.waitable ? make_group_now<task_type::waitable>(d, name, prio, v, k) : make_group_now<task_type::fire_and_forget>(d, name, prio, v, k);
    }
    s.v[n].h = h;
}

// ------------------------------------------------------------------ operations
static bool running;
static void exec_ops(const std::vector<Op> &ops, Slot &s, int holder)
{
    for (const Op &o : ops)
    {
        vrt::point();
        const int n = o.a;
        switch (o.op)
        {
        case 1: { ev1("ac", n); if (o.b == 1) { task_handle h = s.v[n].h; H::schedule_task(std::move(h)); } else if (o.b == 2) H::scheduler().add(s.v[n].h); else H::schedule_task(s.v[n].h); ev1("ar", n); break; }
        case 2: { ev1("wc", n); if (s.v[n].tw && o.b) s.v[n].tw->wait(); else s.v[n].h.wait(); ev1("wr", n); read_leaves(n, "C03"); break; }
        case 3: { ev1("Ac", n); s.v[n].h.activeWait(); ev1("Ar", n); read_leaves(n, "C03"); break; }
        case 4: { ev1("dq", n); bool b = s.v[n].h.isDone(); ev2("dr", n, b); if (b) read_leaves(n, "C03"); break; }
        case 5: { if (s.v[n].h.isDone()) { Why y("C03"); ev1("rq", n); int v = s.v[n].tw->getResult().v; ev2("rr", n, v); if (o.b) { v = s.v[n].tw->getResult().v; ev2("rr", n, v); } } break; }
        case 6: { ev1("sc", n); s.v[n].h.executeSingleThreaded(); ev1("sr", n); if (o.b) read_leaves(n, "C03"); break; }
        case 7: { ev0("is"); bool b = H::scheduler().isIdle(); ev1("ie", b); break; }
        case 8: { ev3("us", o.b, now_us(), vrt::strict_time()); H::scheduler().waitUntilIdle(std::chrono::microseconds(o.a), std::chrono::microseconds(o.b)); ev2("ue", o.b, now_us()); break; }
        case 9: { ev2("d", n, holder); s.v[n] = Handle(); break; }
        case 10: { ev0("Sc"); if (o.a == 1) H::start_default_scheduler<WC>(P->workers[0].count); else H::scheduler().start(); ev0("Sr"); break; }
        case 11: { ev0("Tc"); if (o.a == 1) H::stop_scheduler(); else H::scheduler().stop(); ev1("Tr", vrt::live_threads()); break; }
        case 12: { vrt::quiesce(); ev0("Q"); break; }
        case 13: run_pfor(o.a); break;
        case 14: { std::this_thread::sleep_for(std::chrono::microseconds(o.a)); break; }
        case 15: { ev1("gb", n); while (!gate_is_open(n)) vrt::block_on(&gateObj[n]); ev1("gp", n); break; }
        case 16: { gate_open(n); ev1("go", n); vrt::wake(&gateObj[n]); break; }
        case 17: { int v = H::scheduler().workersCount(task_priority(o.a)); ev2("wn", o.a, v); break; }
        case 18: { ev1("wc", n); int v; { Why y("C03"); v = s.v[n].tw->waitForResult().v; } ev1("wr", n); ev2("rr", n, v); read_leaves(n, "C03"); if (o.b) { Why y("C03"); v = s.v[n].tw->waitForResult().v; ev2("rr", n, v); } break; }
        case 19: { ev1("ac", n); ev2("d", n, holder); { task_handle h = std::move(s.v[n].h); s.v[n] = Handle(); H::schedule_task(std::move(h)); } ev1("ar", n); break; }
        case 20: std::this_thread::yield(); break;
        case 22: { ev1("ac", n); if (P->nodes[n].kind == 0 && !P->nodes[n].waitable) ev2("d", n, holder); make_now(s, n, o.b); ev1("ar", n); break; }
        case 21: { int v = H::scheduler().workersTotalCount(); ev2("wn", 9, v); break; }
        }
    }
}

static void give(Slot &s, const std::vector<Op> &ops, const std::vector<Handle> &all, const std::vector<Slot *> &bodies)
{
    for (const Op &o : ops) if (o.op == 22)
    {
        s.late[o.a].body = bodies[o.a];
        for (size_t m = 1; m < P->nodes.size(); ++m) if (P->nodes[m].parent == o.a) s.late[o.a].kids.push_back(all[m].h);
    }
    for (const Op &o : ops) if ((o.op >= 1 && o.op <= 6) || o.op == 9 || o.op == 18 || o.op == 19) s.v[o.a] = all[o.a];
}

static void drop_scheduler() { H::scheduler().~S(); }
NOI static void new_scheduler() { new (&H::scheduler()) S; }
NOI static void compute()
{
    const int N = (int)P->nodes.size();
    vrt::NoArena na;
    for (int n = 1; n < N; ++n) { leavesOf[n].clear(); beforeOf[n].clear(); }
    auto isAnc = [&](int a, int n) { for (int x = n; x > 0; x = P->nodes[x].parent) if (x == a) return true; return false; };
    for (int n = 1; n < N; ++n) for (int l = 1; l < N; ++l) if (P->nodes[l].kind == 0 && isAnc(n, l)) leavesOf[n].push_back(l);
    for (int n = 1; n < N; ++n) if (P->nodes[n].kind == 0)
        for (int x = n; x > 0 && P->nodes[x].parent > 0; x = P->nodes[x].parent)
            if (P->nodes[P->nodes[x].parent].kind == 1)
                for (int y = 1; y < x; ++y) if (P->nodes[y].parent == P->nodes[x].parent) for (int l : leavesOf[y]) beforeOf[n].push_back(l);
}
// the documented name of a combination of priorities
static worker_priority prio_of(int mask)
{
    switch (mask)
    {
    case 0b00001: return worker_priority::wprio_high;
    case 0b00010: return worker_priority::wprio_above_normal;
    case 0b00100: return worker_priority::wprio_normal;
    case 0b01000: return worker_priority::wprio_below_normal;
    case 0b10000: return worker_priority::wprio_low;
    case 0b01110: return worker_priority::wprio_any_normal;
    case 0b11110: return worker_priority::wprio_normal_or_low;
    case 0b01111: return worker_priority::wprio_normal_or_high;
    case 0b11111: return worker_priority::wprio_any;
    default: return worker_priority(mask);
    }
}
void harness_run(int prog)
{
    P = &progs[prog];
    t0 = vrt::now();
    book_reset();
    const int N = (int)P->nodes.size();
    compute();
    ev1("kx", 0);
    new_scheduler();
    // workers
    int base = 0;
    bool defaults = false;
    for (auto &o : P->clients[0]) if (o.op == 10 && o.a == 1) defaults = true;
    if (!defaults && P->workers.size() == 2)
    {
        worker_config c[2];
        for (int i = 0; i < 2; ++i)
        {
            c[i].threadAttributes.name_ = "w" + std::to_string(base) + "_";
            c[i].workerPrio = prio_of(P->workers[i].mask);
            c[i].count = P->workers[i].count;
            base += c[i].count;
        }
        H::scheduler().registerWorkers<thread_interface<>, semaphore_interface<>, WC>(c);
    }
    else if (!defaults) for (auto &w : P->workers)
    {
        worker_config c;
        c.threadAttributes.name_ = "w" + std::to_string(base) + "_";
        c.workerPrio = prio_of(w.mask);
        c.count = w.count;
        H::scheduler().registerWorker<thread_interface<>, semaphore_interface<>, WC>(c);
        base += w.count;
    }
    {
        Slot mine;
        std::vector<Slot *> bodySlots(N, nullptr);
        std::vector<Slot *> cs;
        for (size_t i = 1; i < P->clients.size(); ++i) cs.push_back(new Slot);
        {
            // nodes: a group comes before its members
            std::vector<Handle> all(N);
            std::vector<task_group_sptr> groups(N);
            for (int n = 1; n < N; ++n)
            {
                const NodeD &d = P->nodes[n];
                const auto prio = d.prio == 5 ? task_priority::inherit : task_priority(d.prio);
                const std::string name = "n" + std::to_string(n);
                if (d.kind == 0) bodySlots[n] = new Slot;
                if (d.late) continue;
                if (d.kind == 0)
                {
                    const bool plain = prio == task_priority::normal && n % 2;
                    if (d.waitable && plain) { all[n].tw = H::make_task(name, Body(n, bodySlots[n])); all[n].h = task_handle(all[n].tw); }
                    else if (!d.waitable && d.parent && plain) all[n].h = task_handle(H::make_task_item(name, BodyV{Body(n, bodySlots[n])}));
                    else if (!d.waitable && d.parent) giving(n), all[n].h = task_handle(H::make_task_item<TC>(name, prio, BodyV{Body(n, bodySlots[n])}));
                    else if (d.waitable) { all[n].tw = H::make_task<task_type::waitable>(name, prio, Body(n, bodySlots[n])); all[n].h = task_handle(all[n].tw); }
                    else { all[n].tf = H::make_task<task_type::fire_and_forget>(name, prio, BodyV{Body(n, bodySlots[n])}); all[n].h = task_handle(all[n].tf); }
                }
                else if (d.kind == 1)
                {
                    if (d.waitable) groups[n] = H::make_sequence_group<task_type::waitable>(name, prio);
                    else groups[n] = H::make_sequence_group<task_type::fire_and_forget>(name, prio);
                    all[n].h = task_handle(groups[n]);
                }
                else
                {
                    if (d.waitable) groups[n] = H::make_parallel_group<task_type::waitable>(name, prio, 4, d.max);
                    else groups[n] = H::make_parallel_group<task_type::fire_and_forget>(name, prio, 0, d.max);
                    all[n].h = task_handle(groups[n]);
                }
            }
            for (int n = 1; n < N; ++n)
                if (P->nodes[n].parent > 0 && !P->nodes[P->nodes[n].parent].late) groups[P->nodes[n].parent]->addTask(all[n].h);
            for (int n = 1; n < N; ++n) if (bodySlots[n]) give(*bodySlots[n], P->nodes[n].body, all, bodySlots);
            give(mine, P->clients[0], all, bodySlots);
            for (size_t i = 1; i < P->clients.size(); ++i) give(*cs[i - 1], P->clients[i], all, bodySlots);
        }
        ev0("B");
        vrt::guide_start(&H::scheduler(), sizeof(S));
        std::vector<std::thread> th;
        // workers are registered before anybody else uses the scheduler
        std::vector<Op> first, rest(P->clients[0]);
        if (defaults) { first.push_back(rest[0]); rest.erase(rest.begin()); }
        exec_ops(first, mine, -1);
        for (size_t i = 1; i < P->clients.size(); ++i)
        {
            Slot *s = cs[i - 1];
            th.emplace_back([i, s]() { exec_ops(P->clients[i], *s, -(int)i - 1); ev1("cd", (int)i); delete s; });
        }
        exec_ops(rest, mine, -1);
        ev1("cd", 0);
        for (auto &t : th) t.join();
    }
    ev0("X");
    H::scheduler().~S();
    ev1("E", vrt::live_threads());
}
