// Drives the partitioners with programs given as data: concurrent callers of getNextValidRange, copies.
#include "common.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <algorithm>
#include <new>
#define OQPI_USE_DEFAULT
#include "oqpi.hpp"

using namespace oqpi;
using vrt::log;

// op: 1 new (slot, kind, first, last, grab, max), 2 copy (slot, from), 3 next (slot), 4 info (slot), 5 drain (slot, at most n times)
struct Op { int op, a, b, c, d, e, f; };
struct Prog { std::vector<std::vector<Op>> threads; };
static std::vector<Prog> progs;
static const Prog *P;
void harness_load(const char *file)
{
    FILE *f = fopen(file, "r"); if (!f) { perror(file); exit(2); }
    int np; if (fscanf(f, "%d", &np) != 1) exit(2);
    while (np--)
    {
        Prog p; int n, k;
        if (fscanf(f, "%d", &n) != 1) exit(2);
        while (n--)
        {
            std::vector<Op> v; if (fscanf(f, "%d", &k) != 1) exit(2);
            while (k--) { Op o; if (fscanf(f, "%d %d %d %d %d %d %d", &o.op, &o.a, &o.b, &o.c, &o.d, &o.e, &o.f) != 7) exit(2); v.push_back(o); }
            p.threads.push_back(v);
        }
        progs.push_back(p);
    }
    fclose(f);
}
int harness_programs() { return (int)progs.size(); }

static const int MAXS = 8;
alignas(64) static char mem[MAXS][64];
static int kind[MAXS];
NOI static int &kindOf(int s) { return kind[s]; }
static atomic_partitioner &at(int s) { return *(atomic_partitioner *)mem[s]; }
static simple_partitioner &si(int s) { return *(simple_partitioner *)mem[s]; }
static void ret(int r, int a, int b) { log("[\"r\",%d,%d,%d,%d],", vrt::tid(), r, a, b); }
template<typename T> static void info(T &t) { ret(t.isValid() ? 1 : 0, t.batchCount(), t.elementCount()); }
static bool next(int s)
{
    log("[\"n\",%d,%d],", vrt::tid(), s + 1);
    int32_t a = -99, b = -99;
    const bool r = kindOf(s) <= 2 ? at(s).getNextValidRange(a, b) : si(s).getNextValidRange(a, b);
    if (r) ret(1, a, b); else ret(0, 0, 0);
    return r;
}
static void exec(const Op &o)
{
    const int s = o.a;
    vrt::point();
    switch (o.op)
    {
    case 1:
        if (kindOf(s)) break;
        log("[\"p\",%d,%d,%d,%d,%d,%d,%d],", vrt::tid(), s + 1, o.b, o.c, o.d, o.e, o.f);
        // 1: atomic(first, last), 2: atomic(count), 3: simple(first, last), 4: simple(count)
        switch (o.b)
        {
        case 1: new (mem[s]) atomic_partitioner(o.c, o.d, o.e, o.f); break;
        case 2: new (mem[s]) atomic_partitioner(o.d, o.e, o.f); break;
        case 3: new (mem[s]) simple_partitioner(o.c, o.d, o.f); break;
        case 4: new (mem[s]) simple_partitioner(o.d, o.f); break;
        }
        kindOf(s) = o.b;
        if (o.b <= 2) info(at(s)); else info(si(s));
        break;
    case 2:
        if (kindOf(s) || !kindOf(o.b)) break;
        log("[\"y\",%d,%d,%d],", vrt::tid(), s + 1, o.b + 1);
        if (kindOf(o.b) <= 2) new (mem[s]) atomic_partitioner(at(o.b)); else new (mem[s]) simple_partitioner(si(o.b));
        kindOf(s) = kindOf(o.b);
        if (kindOf(s) <= 2) info(at(s)); else info(si(s));
        break;
    case 3: if (kindOf(s)) next(s); break;
    case 4: if (!kindOf(s)) break; log("[\"v\",%d,%d],", vrt::tid(), s + 1); if (kindOf(s) <= 2) info(at(s)); else info(si(s)); break;
    case 5: if (kindOf(s)) for (int i = 0; i < o.b && next(s); ++i); break;
    }
}
void harness_run(int prog)
{
    P = &progs[prog];
    for (int i = 0; i < MAXS; ++i) kindOf(i) = 0;
    const int N = (int)P->threads.size();
    for (auto &o : P->threads[0]) exec(o);
    {
        std::vector<std::thread> th;
        for (int i = 1; i < N - 1; ++i) th.emplace_back([i]() { for (auto &o : P->threads[i]) exec(o); });
        for (auto &t : th) t.join();
    }
    if (N > 1) for (auto &o : P->threads[N - 1]) exec(o);
    log("[\"E\",0],");
}
