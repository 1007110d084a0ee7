// Drives task handles and task objects with programs given as data.
#include "common.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <vector>
#define OQPI_USE_DEFAULT
#include "oqpi.hpp"

using vrt::log;
using oqpi::task_handle;
using oqpi::task_priority;
using oqpi::task_type;

struct Op { int op, a, b, c; };
struct Prog { std::vector<std::vector<Op>> threads; };
static std::vector<Prog> progs;
static const Prog *P;
void harness_load(const char *file)
{
    FILE *f = fopen(file, "r"); if (!f) { perror(file); exit(2); }
    int np; if (fscanf(f, "%d", &np) != 1) exit(2);
    while (np--)
    {
        Prog p; int n, k;
        if (fscanf(f, "%d", &n) != 1) exit(2);
        while (n--)
        {
            std::vector<Op> v; if (fscanf(f, "%d", &k) != 1) exit(2);
            while (k--) { Op o; if (fscanf(f, "%d %d %d %d", &o.op, &o.a, &o.b, &o.c) != 4) exit(2); v.push_back(o); }
            p.threads.push_back(v);
        }
        progs.push_back(p);
    }
    fclose(f);
}
int harness_programs() { return (int)progs.size(); }

// slots: handles, then what a thread has acquired, then task objects
static const int HIDDEN = 24, VALUES = 32, MAXS = 40, MAXK = 64;
static int slotK[MAXS];             // what a slot should refer to
static bool isMade[MAXS];           // there is a task object in the slot
static int tasks;
static bool grabbedK[MAXK], begunK[MAXK], waitableK[MAXK];
static bool doneK[8][MAXK];         // who knows that a task is done
static int parts[MAXK];             // live parts of the function and the arguments of a task
static long cell[MAXK];             // written by the functions, read by those who know that they ran
NOI static int &slotOf(int s) { return slotK[s]; }
NOI static bool &made(int s) { return isMade[s]; }
NOI static int task_id() { return tasks < MAXK ? tasks++ : -1; }
NOI static bool grabbed(int k) { return grabbedK[k]; }
NOI static void set_grabbed(int k, bool b = true) { grabbedK[k] = b; }
NOI static bool done(int k) { return doneK[vrt::tid()][k]; }
NOI static void set_done(int k) { doneK[vrt::tid()][k] = true; }
NOI static void all_known() { for (int t = 1; t < 8; ++t) for (int k = 0; k < MAXK; ++k) doneK[0][k] |= doneK[t][k]; }
NOI static bool begun(int k) { return begunK[k]; }
NOI static void set_begun(int k, bool b = true) { begunK[k] = b; }
NOI static bool waitable(int k) { return waitableK[k]; }
NOI static void set_waitable(int k, bool b = true) { waitableK[k] = b; }
NOI static void part(int k, int d) { if (k < 0) return; parts[k] += d; if (d < 0 && !parts[k]) log("[\"fd\",%d,%d],", vrt::tid(), k); }
// ids of the tasks of earlier runs in this process: nobody gets one of them again
static unsigned *usedIds; static const int MAXIDS = 1 << 22;
static int thisRun;
NOI static bool used_before(uint64_t u)
{
    if (u >= (uint64_t)MAXIDS) return false;
    const bool b = usedIds[u] && usedIds[u] != (unsigned)thisRun;
    if (!b) usedIds[u] = thisRun;
    return b;
}
NOI static int left() { int n = 0; for (int p : parts) n += p; return n; }

// a part of a task: counted unless moved from
struct Token
{
    int k;
    explicit Token(int k = -1) : k(k) { part(k, 1); }
    Token(const Token &o) : k(o.k) { part(k, 1); }
    Token(Token &&o) noexcept : k(o.k) { o.k = -1; }
    Token &operator=(const Token &o) { if (this != &o) { part(o.k, 1); const int x = k; k = o.k; part(x, -1); } return *this; }
    Token &operator=(Token &&o) noexcept { if (this != &o) { const int x = k; k = o.k; o.k = -1; part(x, -1); } return *this; }
    ~Token() { const int x = k; k = -1; part(x, -1); }
};
// the context goes with the task
struct Ctx : oqpi::task_context_base
{
    int k;
    Ctx(oqpi::task_base *o, const std::string &n) : oqpi::task_context_base(o, n), k(-1)
    {
        if (n.size() > 2 && n.compare(0, 2, "t ") == 0) k = atoi(n.c_str() + 2);
        log("[\"cc\",%d,%d,%d],", vrt::tid(), k, owner() == o);
    }
    Ctx(Ctx &&o) : oqpi::task_context_base(std::move(o)), k(o.k) { o.k = -1; }
    Ctx &operator=(Ctx &&o) { const int x = k; k = o.k; o.k = -1; gone(x); return *this; }
    ~Ctx() { const int x = k; k = -1; gone(x); }
    static void gone(int k) { if (k >= 0) log("[\"cd\",%d,%d],", vrt::tid(), k); }
};
using Event = oqpi::manual_reset_event_interface<>;
using Context = oqpi::task_context_container<Ctx>;
struct Group : oqpi::group_context_base { using oqpi::group_context_base::group_context_base; };
struct H : oqpi::helpers<oqpi::scheduler<concurrent_queue>, oqpi::group_context_container<Group>, Context, Event> {};

static std::string pad(int val) { return std::string(30 + val % 20, (char)('a' + val % 26)); }
static void body(int k, int val, bool argsOk)
{
    log("[\"b\",%d,%d,%d],", vrt::tid(), k, argsOk ? 1 : 0);
    set_begun(k);
    vrt::point();
    why[vrt::tid()] = "C29";
    cell[k] = cell[k] * 1000 + 2 * val + 1;
    why[vrt::tid()] = nullptr;
    log("[\"e\",%d,%d],", vrt::tid(), k);
}
static std::string free_function(int k, int val, const std::string &s, Token t) { body(k, val, s == pad(val) && t.k == k); return std::to_string(3 * val + k); }
struct Functor
{
    Token t; int val; std::string s;
    int operator()(std::unique_ptr<Token> p, int extra) { body(t.k, val, p && p->k == t.k && extra == val + 7 && s == pad(val)); return 3 * val + t.k; }
};
struct Result { std::string s; int v = -1; std::shared_ptr<int> p; };
static long boxes[MAXK];
struct ByReference
{
    Token t; int val;
    Result operator()(long &b, const std::string &s)
    {
        const int k = t.k;
        body(k, val, &b == &boxes[k] && b == val && s == pad(val));
        Result r; r.s = pad(3 * val + k); r.v = 3 * val + k; r.p = std::make_shared<int>(r.v);
        return r;
    }
};
struct Plain    // the function of a task object
{
    Token t; int val; std::string s;
    int operator()() { body(t.k, val, s == pad(val)); return 3 * val + t.k; }
};

using Object = oqpi::task<task_type::waitable, Event, Context, Plain>;
alignas(64) static char memH[MAXS][sizeof(task_handle)];
alignas(64) static char memO[MAXS - VALUES][sizeof(Object)];
static task_handle &h(int s) { return *(task_handle *)memH[s]; }
static Object &ob(int s) { return *(Object *)memO[s - VALUES]; }
static std::function<int(bool)> *resultOf[MAXK];

template<typename T> static int number(const T &r);
template<> int number(const int &r) { return r; }
template<> int number(const std::string &r) { return atoi(r.c_str()); }
template<> int number(const Result &r) { return r.p && *r.p == r.v && r.s == pad(r.v) ? r.v : -3; }
template<typename S> static task_handle made_of(int k, const S &sp, bool conv)
{
    std::weak_ptr<typename S::element_type> w = sp;
    resultOf[k] = new std::function<int(bool)>([w](bool wait) {
        auto sp = w.lock();
        if (!sp) return -2;
        using R = decltype(sp->getResult());
        if constexpr (std::is_void_v<R>) { if (wait) sp->waitForResult(); else sp->getResult(); return -5; }
        else return wait ? number<R>(sp->waitForResult()) : number<R>(sp->getResult());
    });
    if (conv) return task_handle(sp);
    return task_handle(oqpi::task_sptr(sp));
}
// what is handed over by copy stays as it was
static void kept(int k, bool ok) { log("[\"ki\",%d,%d,%d],", vrt::tid(), k, ok); }
static task_handle create(int k, int form, task_priority prio, int val)
{
    const std::string name = "t " + std::to_string(k);
    set_waitable(k, form != 4 && form != 5);
    switch (form)
    {
    case 0: { Token t(k); return made_of(k, oqpi::make_task<task_type::waitable, Event, Context>(name, prio, [t, val]() { body(t.k, val, true); return 3 * val + t.k; }), true); }
    case 1:
    {
        Token t(k); int kk = k, vv = val; std::string s = pad(val);
        task_handle r = made_of(k, oqpi::make_task<task_type::waitable, Event, Context>(name, prio, free_function, kk, vv, s, t), false);
        kept(k, kk == k && vv == val && s == pad(val) && t.k == k);
        // the task has its own copies
        kk = MAXK - 1; vv = -3; s[0] = '?'; s += "changed"; t = Token();
        return r;
    }
    case 2: return made_of(k, oqpi::make_task<task_type::waitable, Event, Context>(name, prio, Functor{Token(k), val, pad(val)}, std::make_unique<Token>(k), val + 7), true);
    case 3:
    {
        Token t(k); boxes[k] = val;
        ByReference f{t, val};
        const std::string s = pad(val);
        task_handle r = made_of(k, oqpi::make_task<task_type::waitable, Event, Context>(name, prio, f, std::ref(boxes[k]), s), false);
        kept(k, f.t.k == k && s == pad(val));
        return r;
    }
    case 4: { Token t(k); return made_of(k, oqpi::make_task<task_type::fire_and_forget, Event, Context>(name, prio, [t, val]() { body(t.k, val, true); }), true); }
    case 5: { Token t(k); return made_of(k, H::make_task_item(name, prio, [t, val](int x) mutable { body(t.k, val, x == 2 * val); x = 0; return 3 * val + t.k; }, 2 * val), true); }
    default: { Token t(k); return made_of(k, H::make_task(name, [t](int v, const char *s) { body(t.k, v, !strcmp(s, "text")); return 3 * v + t.k; }, val, "text"), true); }
    }
}
static void ret(int res, int v) { log("[\"r\",%d,%d,%d],", vrt::tid(), res, v); }
static int valid(int s) { return s < VALUES ? h(s).isValid() : made(s) && ob(s).getUID() != 0; }
static int effect(int k) { why[vrt::tid()] = "C29"; const int v = (int)cell[k]; why[vrt::tid()] = nullptr; return v; }
// op: 1 create (slot, form, 100*priority+value), 2 copy (to, from, way), 3 move (to, from, way), 4 reset, 5 valid, 6 acquire, 7 execute what was acquired,
//     8 execute single threaded, 9 wait, 10 wait actively, 11 acquired, 12 done, 13 id, 14 priority, 15 parent, 16 swap, 17 result (slot, wait for it), 18 nap
static void exec(const Op &o)
{
    const int s = o.a, me = vrt::tid(), mine = HIDDEN + me;
    const bool val = s >= VALUES;
    vrt::point();
    auto call = [&](const char *op, int a, int b, int c) { log("[\"c\",%d,\"%s\",%d,%d,%d],", me, op, a + 1, b, c); };
    const int k = o.op == 7 && !val ? slotOf(mine) : o.op == 18 ? -1 : slotOf(s);
    // on something
    if (o.op >= 6 && o.op <= 17 && o.op != 16 && o.op != 13 && k < 0) return;
    if (o.op == 13 && (val ? !made(s) : k < 0)) return;
    if (o.op >= 6 && o.op <= 17 && o.op != 7 && o.op != 16 && o.op != 13 && !valid(s)) return;     // reported already
    const bool holding = slotOf(mine) >= 0;
    switch (o.op)
    {
    case 1:
    {
        if (val && made(s)) break;
        const int id = task_id(), form = val ? 7 : o.b, v = o.c % 100; const int prio = o.c / 100;
        if (id < 0) break;
        call("new", s, id, form == 6 ? (int)task_priority::normal : prio);
        if (val)
        {
            set_waitable(id);
            new (memO[s - VALUES]) Object("t " + std::to_string(id), (task_priority)prio, Plain{Token(id), v, pad(v)});
            made(s) = true;
        }
        else if (v % 2) h(s) = create(id, form, (task_priority)prio, v);
        else { task_handle x = create(id, form, (task_priority)prio, v); h(s).~task_handle(); new (memH[s]) task_handle(x); }
        slotOf(s) = id;
        ret(valid(s), v);
        break;
    }
    case 2:
        if (val) break;
        call("cpy", s, o.b + 1, o.c);
        if (o.c == 0) h(s) = h(o.b);
        else if (o.c == 1) { task_handle x(h(o.b)); h(s) = std::move(x); }
        else { task_handle x = h(o.b); h(s).~task_handle(); new (memH[s]) task_handle(x); }
        slotOf(s) = slotOf(o.b);
        ret(valid(s), valid(o.b));
        break;
    case 3:
        if (val != (o.b >= VALUES)) break;
        if (val && !made(o.b)) break;
        call("mov", s, o.b + 1, o.c);
        if (val && made(s)) ob(s) = std::move(ob(o.b));
        else if (val) { new (memO[s - VALUES]) Object(std::move(ob(o.b))); made(s) = true; }
        else if (o.c == 0) h(s) = std::move(h(o.b));
        else if (o.c == 1) { task_handle x(std::move(h(o.b))); h(s) = std::move(x); }
        else if (s != o.b) { h(s).~task_handle(); new (memH[s]) task_handle(std::move(h(o.b))); }
        if (s != o.b) { slotOf(s) = slotOf(o.b); slotOf(o.b) = -1; }
        ret(valid(s), valid(o.b));
        break;
    case 4:
        if (val && !made(s)) break;
        call("rst", s, 0, 0);
        if (val) { ob(s).~Object(); made(s) = false; }
        else if (o.b == 0) h(s).reset();
        else if (o.b == 1) h(s) = task_handle();
        else { h(s).~task_handle(); new (memH[s]) task_handle(); }
        slotOf(s) = -1;
        ret(valid(s), 0);
        break;
    case 5: call("valid", s, 0, 0); ret(valid(s), 0); break;
    case 6:
    {
        if (holding || (val && grabbed(k))) break;
        call("grab", s, k, 0);
        const bool b = val ? ob(s).tryGrab() : h(s).tryGrab();
        if (b)
        {
            set_grabbed(k);
            if (!val) { new (memH[mine]) task_handle(h(s)); slotOf(mine) = k; }
        }
        ret(b, 0);
        break;
    }
    case 7:
        if (val)
        {
            if (!grabbed(slotOf(s)) || begun(slotOf(s))) break;
            call("exec", s, slotOf(s), 0); ob(s).execute(); set_done(slotOf(s)); ret(1, effect(slotOf(s))); break;
        }
        if (!holding) break;
        call("exec", mine, k, 0);
        h(mine).execute();
        slotOf(mine) = -1;
        h(mine).reset();
        set_done(k);
        ret(1, effect(k));
        break;
    case 8: call("st", s, k, 0); if (val) ob(s).executeSingleThreaded(); else h(s).executeSingleThreaded(); set_grabbed(k); ret(1, 0); break;
    case 9:
        if (!waitable(k) || !grabbed(k) || (val ? !done(k) : (holding && !done(k)))) break;
        call("wait", s, k, 0);
        if (val) ob(s).wait(); else h(s).wait();
        set_done(k);
        ret(1, effect(k));
        break;
    case 10:
        if (!waitable(k) || (val ? grabbed(k) && !done(k) : (holding && !done(k)))) break;
        call("aw", s, k, 0);
        if (val) ob(s).activeWait(); else h(s).activeWait();
        set_grabbed(k); set_done(k);
        ret(1, effect(k));
        break;
    case 11: { call("isg", s, k, 0); const bool b = val ? ob(s).isGrabbed() : h(s).isGrabbed(); ret(b, 0); break; }
    case 12: { call("isd", s, k, 0); const bool b = val ? ob(s).isDone() : h(s).isDone(); if (b) set_done(k); ret(b, b ? effect(k) : 0); break; }
    case 13: { call("uid", s, k, 0); const int u = val ? (int)ob(s).getUID() : (int)h(s).getUID(); ret(u, k >= 0 && used_before(u)); break; }
    case 14: { call("prio", s, k, 0); const int p = (int)(val ? ob(s).getPriority() : h(s).getPriority()); ret(p, 0); break; }
    case 15: { call("par", s, k, 0); const bool p = val ? ob(s).getParentGroup() == nullptr : h(s).getParentGroup() == nullptr; ret(p, 0); break; }
    case 16: if (val || o.b >= VALUES) break; call("swap", s, o.b + 1, 0); std::swap(h(s), h(o.b)); std::swap(slotOf(s), slotOf(o.b)); ret(valid(s), valid(o.b)); break;
    case 17:
    {
        const bool w = o.b && waitable(k) && grabbed(k) && !(holding && !done(k));
        if (!w && !done(k)) break;
        if (val && !done(k)) break;
        call("res", s, k, 0);
        const int v = val ? (w ? ob(s).waitForResult() : ob(s).getResult()) : (*resultOf[k])(w);
        if (w) set_done(k);
        ret(v, effect(k));
        break;
    }
    case 18: oqpi::this_thread::sleep_for(std::chrono::microseconds(o.a)); break;
    }
}
NOI static void reset()
{
    for (int i = 0; i < MAXS; ++i) { slotK[i] = -1; isMade[i] = false; }
    for (int i = 0; i < MAXK; ++i) { grabbedK[i] = begunK[i] = waitableK[i] = false; for (auto &d : doneK) d[i] = false; parts[i] = 0; cell[i] = 0; resultOf[i] = nullptr; }
    tasks = 0;
    ++thisRun;
    if (!usedIds) { vrt::NoArena na; usedIds = (unsigned *)calloc(MAXIDS, sizeof *usedIds); }
}
static void all(const std::vector<Op> &v)
{
    for (auto &o : v) exec(o);
    exec(Op{7, 0, 0, 0});
}
void harness_run(int prog)
{
    P = &progs[prog];
    reset();
    const int blocks = vrt::live_blocks();
    for (int i = 0; i < VALUES; ++i) new (memH[i]) task_handle();
    const int N = (int)P->threads.size();
    // thread 0: before the others; the last one: after them
    all(P->threads[0]);
    {
        std::vector<std::thread> th;
        for (int i = 1; i < N - 1; ++i) th.emplace_back([i]() { all(P->threads[i]); });
        vrt::quiesce();
        vrt::order_after_all();
        log("[\"Q\",0],");
        for (auto &t : th) t.join();
        all_known();
    }
    if (N > 1) all(P->threads[N - 1]);
    log("[\"Q\",0],");
    for (int i = 0; i < MAXS; ++i) if (i < VALUES ? slotOf(i) >= 0 : made(i)) exec(Op{4, i, i % 3, 0});
    for (int i = 0; i < VALUES; ++i) h(i).~task_handle();
    for (auto &r : resultOf) delete r;
    log("[\"E\",0,%d,%d],", left(), vrt::live_blocks() - blocks);
}
