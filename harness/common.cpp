// Not instrumented.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "common.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_set>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <pthread.h>
#include <sched.h>

const char *why[64];
struct Job { int prog, strat; uint64_t seed; int count, rw, pctd, pctl, fine, eintr, weak, timer, hblog, limit; std::vector<unsigned char> script; std::vector<unsigned short> guide; };
static std::vector<Job> jobs;
static FILE *out;
struct Shared { long job, k, runs, points, distinct, aborted; unsigned char script[4096]; int scriptLen; long dfsRuns; int dfsDone; long guided, followed, asked, done; };
static Shared *sh;
static int curJob; static uint64_t curSeed; static std::vector<unsigned char> curScript; static int curStrat;
static std::string faults;
static std::unordered_set<uint64_t> seen;

static uint64_t hash(const char *p, size_t n, uint64_t h) { for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } return h; }

static void emit(const char *terminal)
{
    vrt::NoArena na;
    if (terminal) vrt::log("[\"%s\",%d],", terminal, vrt::tid());
    const char *t = vrt::trace(); size_t n = vrt::trace_len();
    const Job &j = jobs[curJob];
    int nd; const vrt::Decision *d = vrt::decisions(nd);
    ++sh->runs; sh->points += vrt::steps();
    if (curStrat == vrt::GUIDED)
    {
        const int f = vrt::guide_followed();
        ++sh->guided; sh->asked += (long)j.guide.size(); sh->done += f;
        if (f == (int)j.guide.size()) ++sh->followed;
    }
    uint64_t h = hash(t, n, 1469598103934665603ull + j.prog * 7919);
    if (!terminal && !j.hblog && !seen.insert(h).second) return;
    ++sh->distinct;
    if (n && t[n - 1] == ',') --n;
    fprintf(out, "{\"p\":%d,\"j\":%d,\"k\":\"%d %llu\",\"r\":%d,\"u\":%d,\"n\":%d,\"f\":\"%s\",\"ev\":[%.*s]", j.prog, curJob, curStrat, (unsigned long long)curSeed,
        vrt::races, vrt::uafs, vrt::steps(), faults.c_str(), (int)n, t);
    if (curStrat == vrt::GUIDED) fprintf(out, ",\"g\":%d", vrt::guide_followed());
    if (curStrat >= 2 || terminal || vrt::races || vrt::uafs)
    {
        fprintf(out, ",\"d\":[");
        for (int i = 0; i < nd; ++i) fprintf(out, i ? ",%d" : "%d", d[i].chosen);
        fprintf(out, "]");
    }
    if (j.hblog) { const char *hb = vrt::hb_trace(); size_t hn = strlen(hb); if (hn && hb[hn - 1] == ',') --hn; fprintf(out, ",\"hb\":[%.*s]", (int)hn, hb); }
    fprintf(out, "}\n");
    fflush(out);
}
static void on_abort(const char *kind)
{
    ++sh->aborted;
    char b[64]; snprintf(b, sizeof b, "STUCK-%s", kind);
    const char *ev = !strcmp(kind, "stuck") ? "STUCK" : !strcmp(kind, "livelock") ? "LIVELOCK" : "ABORT";
    emit(ev);
    _exit(0);
}
static void on_fault(const char *kind, const char *tag, const void *a, const void *b)
{
    vrt::NoArena na;
    const int t = vrt::tid();
    const char *w = t >= 0 && why[t] ? why[t] : tag;
    vrt::log("[\"%s\",%d,\"%s\"],", !strcmp(kind, "race") ? "RACE" : "UAF", t, w);
    char buf[128]; snprintf(buf, sizeof buf, "%s %s %p %p;", kind, w, a, b);
    if (faults.size() < 2000) faults += buf;
}
static volatile sig_atomic_t inSig;
static void on_signal(int s)
{
    if (inSig) _exit(98);
    inSig = 1;
    ++sh->aborted;
    if (vrt::active()) emit(s == SIGPROF ? "HANG" : s == SIGTRAP ? "CHECK" : "CRASH");
    _exit(0);
}
static void run_once(const Job &j)
{
    faults.clear();
    for (auto &w : why) w = nullptr;
    vrt::Config c;
    c.seed = curSeed; c.strategy = (vrt::Strategy)j.strat; c.rwPermille = j.rw; c.pctDepth = j.pctd; c.pctLen = j.pctl;
    c.finePermille = j.fine; c.eintrPermille = j.eintr; c.weakPermille = j.weak; c.timerPermille = j.timer; c.hbLog = j.hblog;
    c.startTime = 1000000000ull * 1000000 + (curSeed * 7919 * 1000003ull) % 1000000000ull;
    if (curStrat == vrt::GUIDED) { c.strategy = vrt::RW; c.guide = j.guide.data(); c.guideLen = (int)j.guide.size(); c.guideLog = j.limit != 0; }
    c.script = curScript.data(); c.scriptLen = (int)curScript.size();
    struct itimerval it = {{0, 0}, {8, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    vrt::run_begin(c);
    harness_run(j.prog);
    emit(nullptr);
    vrt::run_end();
}
static void *nop(void *) { return nullptr; }
static void child()
{
    // the process must not look single threaded to the C library
    pthread_t th; pthread_create(&th, nullptr, nop, nullptr); pthread_join(th, nullptr);
    vrt::init();
    vrt::on_abort = on_abort; vrt::on_fault = on_fault;
    stack_t ss; ss.ss_sp = malloc(1 << 18); ss.ss_size = 1 << 18; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGPROF}) sigaction(s, &sa, nullptr);
    while (sh->job < (long)jobs.size())
    {
        curJob = (int)sh->job;
        const Job &j = jobs[curJob];
        curStrat = j.strat;
        if (j.strat == vrt::DFS)
        {
            // exhaustive exploration of the schedules with at most 'bound' (pctd) preemptions
            while (!sh->dfsDone && sh->dfsRuns < j.count)
            {
                curScript.assign(sh->script, sh->script + sh->scriptLen);
                curSeed = j.seed;
                ++sh->dfsRuns;
                // in case this run dies, the search of this program ends
                sh->dfsDone = 1;
                run_once(j);
                sh->dfsDone = 0;
                int n; const vrt::Decision *d = vrt::decisions(n);
                std::vector<int> pre(n + 1, 0);
                for (int i = 0; i < n; ++i) pre[i + 1] = pre[i] + (d[i].curRunnable && d[i].chosen != d[i].cur ? 1 : 0);
                int i = n - 1; bool found = false;
                if (i >= 4095) i = 4094;
                for (; i >= 0 && !found; --i)
                {
                    // candidates are tried in the order: default choice first, then the others by increasing id
                    int def = -1;
                    if (d[i].curRunnable) def = d[i].cur;
                    else for (int k = 1; k <= 32; ++k) { int t = ((d[i].cur == 255 ? 0 : d[i].cur) + k) % 32; if (d[i].cands >> t & 1) { def = t; break; } }
                    std::vector<int> order; order.push_back(def);
                    for (int t = 0; t < 32; ++t) if (t != def && (d[i].cands >> t & 1)) order.push_back(t);
                    size_t at = 0; while (at < order.size() && order[at] != d[i].chosen) ++at;
                    for (++at; at < order.size(); ++at)
                    {
                        int cost = pre[i] + (d[i].curRunnable && order[at] != d[i].cur ? 1 : 0);
                        if (cost > j.pctd) continue;
                        for (int k = 0; k < i; ++k) sh->script[k] = d[k].chosen;
                        sh->script[i] = (unsigned char)order[at]; sh->scriptLen = i + 1;
                        found = true;
                        break;
                    }
                }
                if (!found) sh->dfsDone = 2;
            }
            if (sh->dfsDone == 2) { fprintf(out, "{\"dfs\":%d,\"p\":%d,\"runs\":%ld,\"complete\":true}\n", curJob, j.prog, sh->dfsRuns); fflush(out); }
        }
        else
        {
            curScript = j.script;
            while (sh->k < j.count)
            {
                curSeed = j.seed + sh->k;
                ++sh->k;
                run_once(j);
                if (j.limit && vrt::races + vrt::uafs > 0) {}
            }
        }
        ++sh->job; sh->k = 0; sh->scriptLen = 0; sh->dfsRuns = 0; sh->dfsDone = 0;
    }
    fflush(out);
    _exit(0);
}
int main(int argc, char **argv)
{
    if (argc < 4) { fprintf(stderr, "usage: %s programs jobs out\n", argv[0]); return 2; }
    harness_load(argv[1]);
    FILE *f = fopen(argv[2], "r");
    char *line = nullptr; size_t cap = 0;
    while (f && getline(&line, &cap, f) > 0)
    {
        Job j; unsigned long long seed; int n = 0;
        if (sscanf(line, "%d %d %llu %d %d %d %d %d %d %d %d %d %d%n", &j.prog, &j.strat, &seed, &j.count, &j.rw, &j.pctd, &j.pctl, &j.fine, &j.eintr, &j.weak, &j.timer, &j.hblog, &j.limit, &n) < 13) continue;
        j.seed = seed;
        for (char *p = line + n; *p;) { char *e; long v = strtol(p, &e, 10); if (e == p) break; if (j.strat == vrt::GUIDED) j.guide.push_back((unsigned short)v); else j.script.push_back((unsigned char)v); p = e; }
        jobs.push_back(j);
    }
    if (f) fclose(f);
    out = fopen(argv[3], "w");
    if (!out) { perror(argv[3]); return 2; }
    // one processor: the threads take turns anyway
    if (const char *cpu = getenv("VRT_CPU")) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(atoi(cpu) % (int)sysconf(_SC_NPROCESSORS_ONLN), &cs); sched_setaffinity(0, sizeof cs, &cs); }
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int maxAbort = 60; if (const char *s = getenv("VRT_MAXABORT")) maxAbort = atoi(s);
    while (sh->job < (long)jobs.size() && sh->aborted < maxAbort)
    {
        const long before = sh->aborted; const long jb = sh->job, kb = sh->k, db = sh->dfsRuns;
        fflush(out);
        pid_t p = fork();
        if (p == 0) { child(); }
        int st = 0; waitpid(p, &st, 0);
        if (sh->aborted == before && sh->job < (long)jobs.size())
        {
            // died without a trace
            const Job &j = jobs[sh->job];
            fprintf(out, "{\"p\":%d,\"j\":%ld,\"k\":\"%d %llu\",\"r\":0,\"u\":0,\"n\":0,\"f\":\"\",\"ev\":[[\"CRASH\",0]]}\n", j.prog, sh->job, j.strat, (unsigned long long)(j.seed + (sh->k ? sh->k - 1 : 0)));
            ++sh->aborted;
            if (sh->job == jb && sh->k == kb && sh->dfsRuns == db) { ++sh->job; sh->k = 0; }
        }
        fseek(out, 0, SEEK_END);
        if (sh->job < (long)jobs.size() && sh->dfsDone) { ++sh->job; sh->k = 0; sh->scriptLen = 0; sh->dfsRuns = 0; sh->dfsDone = 0; }
    }
    fprintf(out, "{\"summary\":{\"runs\":%ld,\"points\":%ld,\"distinct\":%ld,\"aborted\":%ld,\"guided\":%ld,\"followed\":%ld,\"asked\":%ld,\"done\":%ld,\"complete\":%s}}\n", sh->runs, sh->points, sh->distinct, sh->aborted, sh->guided, sh->followed, sh->asked, sh->done, sh->job >= (long)jobs.size() ? "true" : "false");
    fclose(out);
    return 0;
}
