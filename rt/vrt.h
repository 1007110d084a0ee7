// Controlled execution of real multithreaded code: one thread runs at a time, every
// synchronization operation of the code under test is a scheduling point, time is virtual.
// The code under test is compiled with clang's -fsanitize=thread instrumentation and linked
// with this runtime instead of the one of ThreadSanitizer.
#pragma once
#include <cstdint>
#include <cstddef>

namespace vrt {

enum Strategy { RW = 0, PCT = 1, REPLAY = 2, DFS = 3, GUIDED = 4 };

struct Config {
    uint64_t seed       = 1;
    Strategy strategy   = RW;
    int      rwPermille = 300;      // RW: probability of reconsidering the running thread
    int      pctDepth   = 3;        // PCT: number of priority change points + 1
    int      pctLen     = 300;      // PCT: estimated number of scheduling points
    int      finePermille = 0;      // probability for a plain shared access to be a point
    int      eintrPermille = 0;     // probability for a blocking wait to be interrupted
    int      weakPermille = 0;      // probability for a weak CAS to fail spuriously
    int      timerPermille = 5;     // probability to let the earliest timer elapse at a point
    int      stepLimit  = 30000;
    uint64_t startTime  = 1000000000ull * 1000000 + 123456789;
    bool     hb         = true;     // track happens-before (races)
    bool     hbLog      = false;    // log the happens-before events
    const unsigned char *script = nullptr; // REPLAY/DFS: prefix of choices (thread ids)
    int      scriptLen  = 0;
    const unsigned short *guide = nullptr; // GUIDED: the order of the tracked accesses (thread * 16 + kind)
    int      guideLen   = 0;
    bool     guideLog   = false;
};

// One decision: which threads could run, which one did.
struct Decision { uint32_t cands; uint8_t chosen; uint8_t cur; uint8_t curRunnable; };

// Lifecycle of a run; called by the main thread.
void init();
void run_begin(const Config &cfg);
void run_end();
bool active();

// Harness services (callable from any controlled thread)
int  tid();
int  threads();                             // created so far
void point();                              // scheduling point
void user_point();                         // scheduling point of sampled schedules only
bool quiesce();                            // blocks until nothing else can run; false if not
void order_after_all();                    // (harness) the caller happens after everything done so far
void block_on(const void *obj);            // blocks until wake(obj)
void wake(const void *obj);
uint64_t now();
uint64_t rnd(uint64_t n);
void thread_label(int tid, int label);
int  steps();
int  runnable_others();
int  live_threads();                       // controlled threads that have not ended, the caller excluded
int  live_blocks();                        // blocks of memory allocated in the run and not freed
int  live_sems();                          // handles of semaphores not released
int  linked_names();                       // names of semaphores that exist
bool strict_time();                        // time only passes when nothing else can run
void data_region(const void *p, size_t n, const char *tag);

// Schedules of the specification: kinds of tracked accesses are those of spec/OqpiSched.tla
void gate(int kind);                       // an event
void guide_start(const void *region, size_t n); // from here on; 32 bit atomics of the region are tracked
int  guide_followed();                     // how many entries were followed

// Trace
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
const char *trace();
size_t trace_len();
const char *hb_trace();
void note(int which);                      // counters
extern int races, uafs;
extern const char *raceInfo();
// Called when the run can't go on: kind is "stuck", "livelock", "crash"; must not return.
extern void (*on_abort)(const char *kind);
// Called with a description of a race / use after free (once per kind and run)
extern void (*on_fault)(const char *kind, const char *tag, const void *pc1, const void *pc2);

const Decision *decisions(int &n);

// observation of interposed calls made by the code under test
extern void (*on_setname)(int tid, const char *name);
extern void (*on_refused)(int tid);        // the system refused to create a thread

// What the system grants and knows of threads
void system_limits(int rtLimit, int refusePermille);  // highest realtime priority (0: none), chance that a thread is refused
bool thread_system(int tid, uint32_t &cores, int &prio, size_t &stack);

// Harness memory helpers: runs f outside of the arena
struct NoArena { NoArena(); ~NoArena(); };
}
