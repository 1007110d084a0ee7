----------------------------- MODULE SyncTrace ------------------------------
(***************************************************************************)
(* Are the recorded histories of synchronization objects and queues        *)
(* explained by the specification?  S is the set of all configurations     *)
(* that explain the events so far (linearizability), R the same for the    *)
(* steps of the implementation; a history explained by R only is one of    *)
(* the known findings.                                                     *)
(***************************************************************************)
EXTENDS Sync, TLC, TLCExt, Json, IOUtils

Traces  == ndJsonDeserialize(IOEnv.TRACES)
Enforce == {x \in {ndJsonDeserialize(IOEnv.ENFORCE)[1][i] : i \in 1..Len(ndJsonDeserialize(IOEnv.ENFORCE)[1])} : TRUE}

VARIABLES k, i, S, R, over, strict, bad, last
vars == <<k, i, S, R, over, strict, bad, last>>
Ev  == Traces[k].ev
Kinds == Traces[k].kinds

Init == /\ k \in 1..Len(Traces)
        /\ i = 0
        /\ S = {InitCfg(Len(Traces[k].kinds), 8, Traces[k].nt)}
        /\ R = S
        /\ over = FALSE
        /\ strict = FALSE
        /\ last = [t \in 1..Traces[k].nt |-> ""]
        /\ bad = {}

\* the times of a call are left out where they don't matter
TimeOf(e) == IF e[1] = "r" THEN <<e[5], e[6]>> ELSE <<0, 0>>
Untimed == <<Never - 1, 0>>

Explain(X, e, impl) ==
    LET t == e[2] + 1 IN
    CASE e[1] = "c" -> {Call(c, t, e[3], e[4], e[5], e[6], <<e[7], e[8]>>) : c \in X}
      [] e[1] = "r" ->
           LET now == IF e[5] < 0 THEN Untimed ELSE <<e[5], e[6]>> IN
           {[c EXCEPT !.p[t] = NoOp] : c \in {d \in Closure(Kinds, X, now, impl) :
                    d.p[t].ph = Done /\ d.p[t].res = e[3] /\ (d.p[t].op \in {"pop", "movec", "movea", "live", "valid"} => d.p[t].v = e[4])}}
      \* nothing can run any more: nobody is left behind who could
      [] e[1] = "Q" -> {d \in Closure(Kinds, X, Untimed, impl) :
                          \A u \in DOMAIN d.p : d.p[u].op = "idle" \/ (d.p[u].ph # Done /\ Steps(Kinds, d, u, Untimed, impl) = {})}
      \* at the end: handles, memory and names left
      [] e[1] = "E" -> {d \in X : e[3] = Handles(d) /\ e[4] = 0 /\ e[5] = Names(d)}
      [] OTHER -> X

\* Returns at the latest when the time is over, if time only passes when nothing can run
Slack == 200000
Late(X, e) == /\ e[1] = "r" /\ e[5] >= 0 /\ strict
              /\ \A c \in X : LET p == c.p[e[2] + 1] IN
                    p.op = "timed" /\ p.d[1] < Never /\ (e[5] > p.d[1] + 1 \/ (e[5] = p.d[1] /\ e[6] - p.d[2] > Slack) \/ (e[5] = p.d[1] + 1 /\ 1000000000 - p.d[2] + e[6] > Slack))

What(X, e) ==
    CASE e[1] = "r" -> LET p == (CHOOSE c \in X : TRUE).p[e[2] + 1] IN <<"LIN", p.op \o " returned " \o ToString(e[3]) \o (IF p.op \in {"pop", "movec", "movea", "live", "valid"} THEN "/" \o ToString(e[4]) ELSE "")>>
      [] e[1] = "Q" -> <<"LIN", "a thread is blocked that could go on">>
      [] e[1] = "E" -> <<"LIN", "handles, memory or names left: " \o ToString(<<e[3], e[4], e[5]>>)>>
      [] OTHER -> <<"LIN", e[1]>>

Kind0 == Base(Kinds[1])
Overlap == <<"OVER", "overlapping calls on " \o (CASE Kind0 = "sem" -> "a semaphore near its maximum" [] Kind0 = "auto" -> "an auto-reset event" [] OTHER -> "a manual-reset event")>>

\* An augmentation layer sees every operation once, and belongs to the object
LayerSees(op) == CASE op = "wait" -> 1 [] op = "try" -> 2 [] op = "timed" -> 3 [] op = "notify" -> 4 [] op = "notifyAll" -> 5
                   [] op = "reset" -> 6 [] op = "unlock" -> 7 [] OTHER -> 0
Layer(X, e) ==
    LET op == last[e[2] + 1] IN
    IF e[1] # "ly" THEN {}
    ELSE (IF LayerSees(op) # 0 /\ ~(e[4] = 1 /\ e[5] = LayerSees(op)) THEN {<<"LAY", "the layer doesn't see the operation, or not once: " \o op>>} ELSE {})
         \cup (IF \A c \in X : c.s[e[3]].ly # e[6] THEN {<<"LAY", "the layer doesn't move along">>} ELSE {})

Step == /\ i < Len(Ev)
        /\ \A x \in bad : x[1] = "OVER"
        /\ LET e == Ev[i + 1] IN
           /\ i' = i + 1
           /\ S' = (IF S = {} THEN {} ELSE Explain(S, e, FALSE))
           /\ R' = (IF R = {} THEN {} ELSE Explain(R, e, TRUE))
           /\ strict' = (IF e[1] = "st" THEN e[3] = 1 ELSE strict)
           /\ last' = (IF e[1] = "c" THEN [last EXCEPT ![e[2] + 1] = e[3]] ELSE last)
           /\ over' = (over \/ (S' = {} /\ R' # {}))
           /\ bad' = (IF e[1] \in {"RACE", "UAF"} /\ e[3] \in Enforce THEN {<<e[1], e[3]>>} ELSE {})
                     \cup (IF e[1] = "UAF" /\ "UAF" \in Enforce THEN {<<"UAF", "an object is used or released after its release">>} ELSE {})
                     \cup (IF e[1] \in {"STUCK", "LIVELOCK", "ABORT", "CRASH", "CHECK", "HANG"} THEN {<<"FATAL", e[1]>>} ELSE {})
                     \cup Layer(S \cup R, e)
                     \cup (IF Late(S \cup R, e) THEN {<<"LATE", "returned after the deadline">>} ELSE {})
                     \cup (IF S' = {} /\ R' = {} THEN {What(S \cup R, e)} ELSE IF S' = {} /\ ~over THEN {Overlap} ELSE {})
           /\ bad' # {} => PrintT("@BAD " \o ToJson(<<Traces[k].id, i', bad'>>))
        /\ (i' = Len(Ev) /\ \A x \in bad' : x[1] = "OVER") => PrintT("@OK " \o ToJson(<<Traces[k].id>>))
        /\ UNCHANGED k

Spec == Init /\ [][Step]_vars
Accepted == bad = {}
=============================================================================
