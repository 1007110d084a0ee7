-------------------------------- MODULE Sync --------------------------------
(***************************************************************************)
(* Semaphores, events, mutexes and the queue: variables (handles) that     *)
(* refer to objects, names that refer to objects, and threads with one     *)
(* pending operation each.                                                 *)
(*                                                                         *)
(* A configuration is a record                                             *)
(*   o  : sequence of objects [k: kind, n: count/flag, m: maximum, q: seq] *)
(*   s  : variable -> [ob: object or 0, nm: name or 0, cr: creator?,       *)
(*                     in: constructed?]                                   *)
(*   nm : name -> object or 0                                              *)
(*   p  : thread -> pending operation                                      *)
(*        [op, s, x, y, d (deadline), ph (phase), res, v]                  *)
(* An operation takes effect in one or several steps (Steps) and is done   *)
(* when ph = Done.  With impl = FALSE the steps are what a user relies on; *)
(* with impl = TRUE they are those of the implementation on POSIX          *)
(* semaphores, which differ where two calls overlap (see DESIGN.md, known  *)
(* findings):  a notification is a test followed by a post, and the waiter *)
(* of a manual-reset event takes the token and puts it back.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Done  == 99
Never == 2000000000
NoOp  == [op |-> "idle", s |-> 0, x |-> 0, y |-> 0, d |-> <<0, 0>>, ph |-> 0, res |-> 0, v |-> 0]
NoVar == [ob |-> 0, nm |-> 0, cr |-> FALSE, in |-> FALSE, ly |-> 0]   \* ly: what the layer owns
Min2(a, b) == IF a < b THEN a ELSE b
Later(t, d) == d[1] < Never /\ (t[1] > d[1] \/ (t[1] = d[1] /\ t[2] >= d[2]))

InitCfg(ns, nn, nt) == [o |-> <<>>, s |-> [i \in 1..ns |-> NoVar], nm |-> [i \in 1..nn |-> 0], p |-> [i \in 1..nt |-> NoOp]]

Call(c, t, op, s, x, y, d) == [c EXCEPT !.p[t] = [op |-> op, s |-> s, x |-> x, y |-> y, d |-> d, ph |-> 0, res |-> 0, v |-> 0]]
Fin(c, t, res) == [c EXCEPT !.p[t].ph = Done, !.p[t].res = res]
FinV(c, t, res, v) == [c EXCEPT !.p[t].ph = Done, !.p[t].res = res, !.p[t].v = v]
ObjOf(c, t) == c.s[c.p[t].s].ob
N(c, t) == c.o[ObjOf(c, t)].n
SetN(c, t, n) == [c EXCEPT !.o[ObjOf(c, t)].n = n]

---------------------------------------------------------------------------
\* taking a token
Take(c, t, keeps, impl) ==
    IF keeps THEN
        IF ~impl THEN {Fin(c, t, 1)}
        ELSE IF c.p[t].ph = 0 THEN {[SetN(c, t, N(c, t) - 1) EXCEPT !.p[t].ph = 1]}
        ELSE {}
    ELSE {Fin(SetN(c, t, N(c, t) - 1), t, 1)}

\* (impl) the waiter of a manual-reset event puts the token back
PutBack(c, t) == IF c.p[t].ph = 1 THEN {Fin(SetN(c, t, N(c, t) + 1), t, 1)} ELSE {}

Waits(c, t, k, now, impl) ==
    IF c.p[t].ph = 1 THEN PutBack(c, t)
    ELSE LET op == c.p[t].op IN
         (IF N(c, t) > 0 THEN Take(c, t, k = "man", impl) ELSE {})
         \cup (IF N(c, t) = 0 /\ (op = "try" \/ (op = "timed" /\ Later(now, c.p[t].d))) THEN {Fin(c, t, 0)} ELSE {})

\* adding a token, m: the maximum
Notify(c, t, m, impl) ==
    IF c.p[t].x <= 0 THEN {Fin(c, t, 1)}
    ELSE IF ~impl THEN
        LET d == [SetN(c, t, Min2(N(c, t) + 1, m)) EXCEPT !.p[t].x = @ - 1] IN
        {IF d.p[t].x = 0 THEN Fin(d, t, 1) ELSE d} \cup (IF N(c, t) >= m THEN {Fin(c, t, 1)} ELSE {})
    ELSE IF c.p[t].ph = 0 THEN {IF N(c, t) >= m THEN Fin(c, t, 1) ELSE [c EXCEPT !.p[t].ph = 1]}
    ELSE LET d == [SetN(c, t, N(c, t) + 1) EXCEPT !.p[t].x = @ - 1, !.p[t].ph = 0] IN
         {IF d.p[t].x = 0 THEN Fin(d, t, 1) ELSE d}

Reset(c, t, impl) ==
    IF ~impl THEN {Fin(SetN(c, t, 0), t, 1)}
    ELSE IF N(c, t) > 0 THEN {SetN(c, t, N(c, t) - 1)} ELSE {Fin(c, t, 1)}

Queue(c, t) ==
    LET i == ObjOf(c, t)
        q == c.o[i].q
        p == c.p[t]
    IN CASE p.op = "push" -> {Fin([c EXCEPT !.o[i].q = Append(q, p.x)], t, 1)}
         [] p.op = "pop" -> IF q = <<>> THEN {FinV(c, t, 0, -7)} ELSE {FinV([c EXCEPT !.o[i].q = Tail(q)], t, 1, Head(q))}
         [] p.op = "empty" -> {Fin(c, t, IF q = <<>> THEN 1 ELSE 0)}
         [] OTHER -> {}

---------------------------------------------------------------------------
\* variables and names; x: name + 1 (0: local), y: option, d = <<initial count, maximum>>
MaxInt == 2147483647
KindOf(kinds, s) == kinds[s]
Base(kk) == LET k == kk % 8 IN CASE k \in {0, 3} -> "sem" [] k \in {1, 4} -> "auto" [] k \in {2, 5} -> "man" [] k = 6 -> "mtx" [] OTHER -> "que"
NewObj(k, init, mx) ==
    LET b == Base(k) IN
    [k |-> b, q |-> <<>>,
     n |-> CASE b = "sem" -> init [] b = "mtx" -> (IF init = 0 THEN 0 ELSE 1) [] OTHER -> 0,
     m |-> CASE b = "sem" -> (IF mx = 0 THEN MaxInt ELSE mx) [] OTHER -> 1]
BadName(x) == x >= 8
Construct(c, t, kinds) ==
    LET p == c.p[t]
        k == kinds[p.s] % 8
        \* a mutex created by its name only is locked
        o == NewObj(k, IF Base(k) = "mtx" /\ p.y = 3 THEN 0 ELSE p.d[1], p.d[2])
        add == [c EXCEPT !.o = Append(@, o)]
        id == Len(c.o) + 1
        put(cc, ob, nm, cr) == [cc EXCEPT !.s[p.s] = [ob |-> ob, nm |-> nm, cr |-> cr, in |-> TRUE, ly |-> p.s]]
    IN IF k \notin {3, 4, 5, 6} THEN {Fin(put(add, id, 0, FALSE), t, 1)}
       ELSE IF BadName(p.x) THEN {Fin(put(c, 0, 0, FALSE), t, 0)}
       ELSE LET e == c.nm[p.x] IN
            IF e = 0 THEN
                IF p.y = 1 THEN {Fin(put(c, 0, 0, FALSE), t, 0)}
                ELSE {Fin(put([add EXCEPT !.nm[p.x] = id], id, p.x, TRUE), t, 1)}
            ELSE IF p.y = 0 THEN {Fin(put(c, 0, 0, FALSE), t, 0)}
            ELSE {Fin(put(c, e, p.x, FALSE), t, 1)}

\* the handle of a variable goes away
Release(c, s) == IF c.s[s].ob # 0 /\ c.s[s].cr THEN [c EXCEPT !.nm[c.s[s].nm] = 0] ELSE c
Invalid == [NoVar EXCEPT !.in = TRUE]
Destroy(c, t) == {Fin([Release(c, c.p[t].s) EXCEPT !.s[c.p[t].s] = NoVar], t, 1)}
B(b) == IF b THEN 1 ELSE 0
MoveC(c, t) == LET d == c.p[t].s s == c.p[t].x IN
    {FinV([c EXCEPT !.s[d] = c.s[s], !.s[s] = Invalid], t, B(c.s[s].ob # 0), 0)}
MoveA(c, t) == LET d == c.p[t].s s == c.p[t].x IN
    IF s = d THEN {FinV(c, t, B(c.s[d].ob # 0), B(c.s[d].ob # 0))}
    ELSE {FinV([Release(c, d) EXCEPT !.s[d] = c.s[s], !.s[s] = Invalid], t, B(c.s[s].ob # 0), 0)}
Handles(c) == Cardinality({i \in DOMAIN c.s : c.s[i].ob # 0 /\ c.o[c.s[i].ob].k # "que"})
Names(c) == Cardinality({i \in DOMAIN c.nm : c.nm[i] # 0})

---------------------------------------------------------------------------
\* All the steps the pending operation of thread t can take now
Steps(kinds, c, t, now, impl) ==
    LET p == c.p[t] IN
    IF p.op = "idle" \/ p.ph = Done THEN {}
    ELSE CASE p.op = "new" -> Construct(c, t, kinds)
           [] p.op = "del" -> Destroy(c, t)
           [] p.op = "movec" -> MoveC(c, t)
           [] p.op = "movea" -> MoveA(c, t)
           [] p.op = "valid" -> {FinV(c, t, B(c.s[p.s].ob # 0), IF c.s[p.s].ob # 0 THEN c.s[p.s].nm ELSE 0)}
           [] p.op = "live" -> {FinV(c, t, Handles(c), Names(c))}
           [] p.op = "sleep" -> IF Later(now, p.d) THEN {Fin(c, t, 1)} ELSE {}
           \* on a variable that refers to nothing nothing is done
           [] p.op = "none" -> IF c.s[p.s].ob = 0 THEN {Fin(c, t, 0)} ELSE {}
           [] OTHER ->
              IF c.s[p.s].ob = 0 THEN {}
              ELSE LET o == c.o[ObjOf(c, t)] IN
                   IF o.k = "que" THEN Queue(c, t)
                   ELSE CASE p.op \in {"wait", "try", "timed"} -> Waits(c, t, o.k, now, impl)
                          [] p.op = "notify" -> IF o.k = "sem" THEN Notify(c, t, o.m, impl)
                                                ELSE Notify([c EXCEPT !.p[t].x = 1], t, 1, impl)
                          [] p.op = "notifyAll" -> Notify([c EXCEPT !.p[t].op = "notify", !.p[t].x = o.m], t, o.m, impl)
                          [] p.op = "reset" -> Reset(c, t, impl)
                          [] p.op = "unlock" -> {Fin(SetN(c, t, 1), t, 1)}
                          [] OTHER -> {}

\* Every configuration that the pending operations can lead to
RECURSIVE Clo(_, _, _, _, _)
Clo(kinds, S, F, now, impl) ==
    IF F = {} THEN S
    ELSE LET G == UNION {UNION {Steps(kinds, c, t, now, impl) : t \in DOMAIN c.p} : c \in F} \ S IN
         Clo(kinds, S \cup G, G, now, impl)
Closure(kinds, S, now, impl) == Clo(kinds, S, S, now, impl)
=============================================================================
