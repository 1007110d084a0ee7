------------------------------ MODULE Threads -------------------------------
(***************************************************************************)
(* Thread objects.  A slot holds a thread object (or none); an object      *)
(* refers to one launch or to nothing.  A launch runs its callable once,   *)
(* on a thread of its own, with the values the arguments had, under the    *)
(* name given; whoever joins it returns after its end.  A thread has       *)
(* attributes: the cores it may run on, a priority, a stack; they are      *)
(* those of the launch until they are changed.  The system may refuse a    *)
(* thread: then the object refers to nothing and the callable never runs.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == -1
Cores == 8
NoLaunch == [st |-> "no", name |-> 0, val |-> 0, by |-> -1, on |-> -1, det |-> FALSE,
             cores |-> 0, prio |-> 0, stack |-> 0]
InitT(ns, nk, nt) == [in |-> [s \in 1..ns |-> FALSE], ref |-> [s \in 1..ns |-> None], k |-> [j \in 0..(nk - 1) |-> NoLaunch],
                      c |-> [t \in 1..nt |-> <<>>], hand |-> [j \in 0..(nk - 1) |-> None],
                      ly |-> [s \in 1..ns |-> 0],             \* what the layers of the objects own
                      lyh |-> [j \in 0..(nk - 1) |-> 0],
                      rt |-> 0,         \* realtime priorities the system allows
                      order |-> {},     \* <<priority, what the system was told>>
                      wb |-> <<>>, wy |-> <<>>, bad |-> {}]
Label(m, ok, l, what) == IF ok THEN m ELSE [m EXCEPT !.bad = @ \cup {<<l, what>>}]
Say(m, ok, what) == Label(m, ok, "THR", what)
SayL(m, ok, what) == Label(m, ok, "LAY", what)
SayA(m, ok, what) == Label(m, ok, "ATTR", what)
\* the cores that exist of a mask (-1: all)
Eff(mask) == IF mask = -1 THEN 2 ^ Cores - 1 ELSE mask % (2 ^ Cores)
\* The system's priorities are in its range and in the order of those asked for
Told(m, prio, sys) ==
    IF m.rt = 0 THEN m
    ELSE SayA([m EXCEPT !.order = @ \cup {<<prio, sys>>}],
              /\ sys \in 1..m.rt
              /\ \A o \in m.order : (o[1] < prio => o[2] < sys) /\ (o[1] = prio => o[2] = sys) /\ (o[1] > prio => o[2] > sys), "wrong priority")
EnoughStack(asked, got) == asked = 0 \/ got \in asked..(2 * asked + 64)
B(b) == IF b THEN 1 ELSE 0
Joinable(m, s) == m.ref[s] # None
\* a layer reports before the call returns: <<"ly", t, slot, count, op, tag>>
Layer(m, e) ==
    LET c  == m.c[e[2] + 1]
        m1 == SayL(m, e[4] = 1, "the layer doesn't see the operation, or not once: " \o c[3])
    IN SayL(m1, e[6] = m.ly[e[3]], "the layer doesn't move along: " \o c[3])

\* a call: remembered until it returns; launching may start the callable before
Call(m, e) ==
    LET t == e[2] + 1
        m1 == [m EXCEPT !.c[t] = e]
    IN IF e[3] = "new" THEN [m1 EXCEPT !.k[e[5]] = [NoLaunch EXCEPT !.st = "launched", !.name = e[6], !.val = e[7], !.by = e[2],
                                                              !.cores = Eff(e[9]), !.prio = e[10], !.stack = e[11]],
                                       \* a thread object among the arguments
                                       !.hand[e[5]] = IF e[8] > 0 THEN m.ref[e[8]] ELSE None,
                                       !.ref = IF e[8] > 0 THEN [@ EXCEPT ![e[8]] = None] ELSE @,
                                       !.lyh[e[5]] = IF e[8] > 0 THEN m.ly[e[8]] ELSE 0,
                                       !.ly = [x \in DOMAIN @ |-> IF x = e[4] THEN x ELSE IF x = e[8] THEN 0 ELSE @[x]]]
       ELSE IF e[3] = "workers" THEN [m1 EXCEPT !.wb = <<>>, !.wy = <<>>]
       ELSE IF e[3] = "def" THEN [m1 EXCEPT !.ly[e[4]] = e[4]]
       ELSE IF e[3] = "mov" /\ e[4] # e[5] THEN [m1 EXCEPT !.ly[e[4]] = m.ly[e[5]], !.ly[e[5]] = 0]
       ELSE IF e[3] = "take" THEN [m1 EXCEPT !.ly[e[4]] = m.lyh[e[5]], !.lyh[e[5]] = 0]
       ELSE m1
\* the system refuses the thread that t is launching
Refused(m, e) ==
    LET c == m.c[e[2] + 1] IN
    IF c # <<>> /\ c[3] = "new" THEN [m EXCEPT !.k[c[5]].st = IF @ = "launched" THEN "refused" ELSE @] ELSE m

\* what the system knows of a thread: <<"y", t, launch, cores, priority, stack>>
System(m, e) ==
    LET l  == m.k[e[3]]
        m1 == SayA(m, e[4] = l.cores, "wrong cores")
        m2 == SayA(m1, EnoughStack(l.stack, e[6]), "wrong size of the stack")
    IN Told(m2, l.prio, e[5])

Begin(m, e) ==
    LET k == e[3]
        m1 == Say(m, m.k[k].st = "launched", "a callable runs twice, or was never launched")
        m2 == Say(m1, e[2] # m.k[k].by /\ \A j \in DOMAIN m.k : m.k[j].on # e[2], "a callable doesn't run on a thread of its own")
        m3 == Say(m2, e[4] = m.k[k].name, "wrong name")
        m4 == Say(m3, e[5] = 1, "wrong arguments")
    IN [m4 EXCEPT !.k[k].st = "running", !.k[k].on = e[2]]
Ended(m, e) == [Say(m, m.k[e[3]].st = "running" /\ m.k[e[3]].on = e[2], "the end of a callable that isn't running") EXCEPT !.k[e[3]].st = "ended"]

Move(m, d, s) == IF d = s THEN m ELSE [m EXCEPT !.ref[d] = m.ref[s], !.ref[s] = None, !.in[d] = TRUE]
Return(m, e) ==
    LET t == e[2] + 1
        c == m.c[t]
        s == c[4]
        r == e[3]
        v == e[4]
        done(x) == [x EXCEPT !.c[t] = <<>>]
    IN done(
       CASE c[3] = "new" /\ m.k[c[5]].st = "refused" -> Say([m EXCEPT !.in[s] = TRUE, !.ref[s] = None], r = 0 /\ v = 0, "joinable although there is no thread")
         [] c[3] = "new" -> Say([m EXCEPT !.in[s] = TRUE, !.ref[s] = c[5]], r = 1 /\ v = 0, "not joinable after the launch")
         [] c[3] = "def" -> Say([m EXCEPT !.in[s] = TRUE, !.ref[s] = None], r = 0, "an empty thread object is joinable")
         [] c[3] = "mov" -> LET d == Move(m, s, c[5]) IN Say(d, r = B(Joinable(d, s)) /\ v = B(Joinable(d, c[5])), "moving doesn't transfer the thread")
         [] c[3] = "take" -> LET d == [m EXCEPT !.ref[s] = m.hand[c[5]], !.hand[c[5]] = None, !.in[s] = TRUE] IN
                             Say(d, r = B(Joinable(d, s)) /\ v = 0, "moving doesn't transfer the thread")
         [] c[3] = "join" -> LET k == m.ref[s]
                                 d == [m EXCEPT !.ref[s] = None]
                                 d1 == Say(d, r = 0, "joinable after joining")
                                 d2 == Say(d1, k = None \/ m.k[k].st = "ended", "joining returns before the end")
                             IN Say(d2, v = (IF k = None THEN -1 ELSE 2 * m.k[k].val + 1), "effects of a joined thread aren't there")
         [] c[3] = "detach" -> Say([m EXCEPT !.ref[s] = None], r = 0, "joinable after detaching")
         [] c[3] = "joinable" -> Say(m, r = B(Joinable(m, s)), "joinable() is wrong")
         [] c[3] = "del" -> [m EXCEPT !.in[s] = FALSE, !.ref[s] = None]
         [] c[3] = "id" -> Say(m, r = m.ref[s], "the identifier isn't the one of the thread")
         [] c[3] = "saff" -> [m EXCEPT !.k[c[4]].cores = Eff(c[5])]
         [] c[3] = "gaff" -> SayA(m, Eff(r) = m.k[c[4]].cores, "wrong cores")
         [] c[3] = "sprio" -> [m EXCEPT !.k[c[4]].prio = c[5]]
         [] c[3] = "gprio" -> SayA(m, m.rt = 0 \/ r = m.k[c[4]].prio, "wrong priority")
         [] c[3] = "workers" ->
              LET of(seq, set) == SelectSeq(seq, LAMBDA e1 : IF e1[1] = "wb" THEN e1[5] = set ELSE e1[3] \div 100 = set)
                  ids(seq) == {seq[i][3] : i \in DOMAIN seq}
                  second == c[8] = 1
                  b1 == of(m.wb, 0)
                  b2 == of(m.wb, 1)
                  \* what was asked for a worker: of the second configuration, or of the first or only one
                  cores(w) == IF w[3] \div 100 = 1 THEN 2 ELSE Eff(c[5])
                  stack(w) == IF w[3] \div 100 = 1 THEN 256 ELSE c[7]
                  prio(w)  == IF w[3] \div 100 = 1 THEN 0 ELSE c[6]
                  m1 == SayA(m, Len(b1) = c[4] /\ Len(b2) = (IF second THEN 1 ELSE 0) /\ Len(m.wb) = Len(b1) + Len(b2) /\ Len(m.wy) = Len(m.wb), "a wrong number of workers")
                  m2 == SayA(m1, \A i \in DOMAIN m.wb : m.wb[i][4] = 1, "wrong name of a worker")
                  m3 == SayA(m2, (IF c[4] = 1 THEN ids(b1) = {-1} ELSE ids(b1) = 0..(c[4] - 1)) /\ ids(b2) \subseteq {-1}, "wrong numbers of workers")
                  m4 == SayA(m3, Cardinality({m.wb[i][2] : i \in DOMAIN m.wb}) = Len(m.wb), "two workers on one thread")
                  m5 == SayA(m4, \A i \in DOMAIN m.wy : m.wy[i][4] = cores(m.wy[i]), "wrong cores")
                  m6 == SayA(m5, \A i \in DOMAIN m.wy : EnoughStack(stack(m.wy[i]), m.wy[i][6]), "wrong size of the stack")
                  RECURSIVE All(_, _)
                  All(x, i) == IF i > Len(m.wy) THEN x ELSE All(Told(x, prio(m.wy[i]), m.wy[i][5]), i + 1)
              IN All(m6, 1)
         [] OTHER -> m)
\* nothing runs any more
Quiet(m) == LET m1 == Say(m, \A k \in DOMAIN m.k : m.k[k].st \in {"no", "ended", "refused"}, "a callable never ran, or not to its end") IN
            Say(m1, \A t \in DOMAIN m.c : m.c[t] = <<>>, "a call never returns")
End(m, e) == LET m1 == Say(m, e[3] = 0, "arguments of threads are left") IN Say(m1, e[4] = 0, "memory is left")
=============================================================================
