--------------------------------- MODULE HB ---------------------------------
(***************************************************************************)
(* Happens-before of C++ on executions with interleaved steps, and data    *)
(* races.                                                                  *)
(*                                                                         *)
(* A thread owns a vector clock; a synchronization object (an atomic, a    *)
(* mutex, a semaphore, a guard of a static) carries the clock of what has  *)
(* been released to it.  Memory is divided in granules of 8 bytes; an      *)
(* access covers a set of bytes (a mask).  Two accesses race if they are   *)
(* from different threads, overlap, at least one writes, not both are      *)
(* atomic, and neither happens before the other.                           *)
(*                                                                         *)
(* Events:                                                                 *)
(*   A t o    acquire: o's clock is joined to the thread's                 *)
(*   R t o    release: the thread's clock is joined to o's                 *)
(*   RS t o   releasing store: replaces o's clock                          *)
(*   LX t o   relaxed load: takes effect with the next acquire fence       *)
(*   SX t o   relaxed store: carries what the last release fence saw       *)
(*   SF t o   relaxed read-modify-write after a release fence              *)
(*   FA FR FAR t  fences                                                   *)
(*   C t u    t creates u      J t u    t joins u                          *)
(*   O t      (harness) t is ordered after everything                      *)
(*   D W AD AW t g m   plain read, write, atomic read, write               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
Join(x, y) == [t \in DOMAIN x |-> Max(x[t], y[t])]
Zero(n) == [t \in 1..n |-> 0]

\* n threads, no objects, no granules
InitHB(n, no, ng) ==
    [i    |-> 0,
     vc   |-> [t \in 1..n |-> [Zero(n) EXCEPT ![t] = 1]],
     obj  |-> [o \in 1..no |-> Zero(n)],
     fr   |-> [t \in 1..n |-> Zero(n)],         \* clock at the last release fence
     ap   |-> [t \in 1..n |-> Zero(n)],         \* seen by relaxed loads
     mem  |-> [g \in 1..ng |-> {}],             \* accesses: <<thread, kind, bytes, clock>>
     race |-> {}]

Tick(s, t) == [s EXCEPT !.vc[t][t] = @ + 1]

\* Sets of bytes as numbers
Bit(m, b) == (m \div b) % 2 = 1
Overlap(m, n) == \E b \in {1, 2, 4, 8, 16, 32, 64, 128} : Bit(m, b) /\ Bit(n, b)

Writes(k) == k \in {"W", "AW"}
Plain(k)  == k \in {"W", "D"}

Conflict(k, m, x) == /\ Writes(k) \/ Writes(x[2])
                     /\ Plain(k) \/ Plain(x[2])
                     /\ (m = x[3] \/ Overlap(m, x[3]))

Access(s, k, t, g, m) ==
    LET H     == s.mem[g]
        bad   == \E x \in H : x[1] # t /\ x[4] > s.vc[t][x[1]] /\ Conflict(k, m, x)
        \* of the accesses of one thread of the same kind only the last one matters
        rest  == {x \in H : ~(x[1] = t /\ x[2] = k /\ x[3] = m)}
    IN [s EXCEPT !.mem[g] = rest \cup {<<t, k, m, s.vc[t][t]>>},
                 !.race   = IF bad THEN @ \cup {g} ELSE @]

ApplyHB(s0, e) ==
    LET s == [s0 EXCEPT !.i = @ + 1]
        k == e[1]
        t == e[2]
    IN CASE k = "A"   -> [s EXCEPT !.vc[t] = Join(@, s.obj[e[3]])]
         [] k = "R"   -> Tick([s EXCEPT !.obj[e[3]] = Join(@, s.vc[t])], t)
         [] k = "RS"  -> Tick([s EXCEPT !.obj[e[3]] = s.vc[t]], t)
         [] k = "LX"  -> [s EXCEPT !.ap[t] = Join(@, s.obj[e[3]])]
         [] k = "SX"  -> [s EXCEPT !.obj[e[3]] = s.fr[t]]
         [] k = "SF"  -> [s EXCEPT !.obj[e[3]] = Join(@, s.fr[t])]
         [] k = "FA"  -> [s EXCEPT !.vc[t] = Join(@, s.ap[t])]
         [] k = "FR"  -> Tick([s EXCEPT !.fr[t] = s.vc[t]], t)
         [] k = "FAR" -> LET v == Join(s.vc[t], s.ap[t]) IN Tick([s EXCEPT !.vc[t] = v, !.fr[t] = v], t)
         [] k = "F"   -> s
         [] k = "C"   -> Tick([s EXCEPT !.vc[e[3]] = [s.vc[t] EXCEPT ![e[3]] = 1]], t)
         [] k = "J"   -> [s EXCEPT !.vc[t] = Join(@, s.vc[e[3]])]
         [] k = "O"   -> [s EXCEPT !.vc[t] = [u \in DOMAIN @ |-> s.vc[u][u]]]
         [] OTHER     -> Access(s, k, t, e[3], e[4])
=============================================================================
