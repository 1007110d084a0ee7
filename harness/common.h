// Common part of the harnesses: reads the jobs, runs every job in a forked child (a child that
// dies is replaced), writes one JSON line per distinct execution.
//
// usage: h_xxx PROGRAMS JOBS OUT
//   PROGRAMS  text, parsed by the harness (load)
//   JOBS      one job per line:  prog strategy seed count rw pctdepth pctlen fine eintr weak timer hblog limit [script...]
//             strategy: 0 random walk, 1 PCT, 2 replay of a script, 3 bounded exhaustive (DFS), 4 guided by a script
//   OUT       JSON lines: {"p":prog,"j":job,"k":"strategy seed","ev":[...],"r":races,"u":uafs,"n":points,...}
#pragma once
#include "../rt/vrt.h"
#include <cstdint>
void harness_load(const char *file);
int  harness_programs();
void harness_run(int prog);              // inside of a run, on the main thread
void harness_trace_extra(int prog);
#define NOI __attribute__((no_sanitize("thread"), noinline))
extern const char *why[64];              // per thread: what the current accesses are done for
int  extra_fault_label(const char *);
