------------------------------ MODULE PartImpl ------------------------------
(***************************************************************************)
(* The algorithms of the partitioners (a compare-and-swap loop on a shared *)
(* index; a fetch-and-increment of a batch number) for every small choice  *)
(* of parameters, any interleaving of the callers, and a copy taken at any *)
(* moment, checked against the contract of Partition.                      *)
(***************************************************************************)
EXTENDS Partition, TLC
CONSTANTS MaxN, MaxB, Threads, Calls, Firsts

VARIABLES m, x, pc, seen, left
vars == <<m, x, pc, seen, left>>

FirstsDef == {-1, 2}
Params == {q \in [k : {1, 3}, f : Firsts, n : 0..MaxN, g : 1..MaxB, b : 1..MaxB] : q.k = 3 => q.g = 1}
BatchCount(n, b) == IF n < b THEN n ELSE b
Init == \E q \in Params :
        /\ m = LET c == New(InitM(2, Threads), 1, 1, q.k, q.f, q.f + q.n, q.g, q.b) IN Ret(c, 1, IF q.n > 0 THEN 1 ELSE 0, BatchCount(q.n, q.b), q.n)
        \* shared index (or batch number) of the partitioner and of its copy
        /\ x = <<IF q.k = 1 THEN q.f ELSE 0, -100>>
        /\ pc = [t \in 1..Threads |-> "idle"]
        /\ seen = [t \in 1..Threads |-> 0]
        /\ left = [t \in 1..Threads |-> Calls]
P(t) == m.p[m.c[t].s]
X(t) == x[m.c[t].s]
\* the last index of a batch, as the equal-size partitioner computes it
LastOf(p, j) == LET q == IF Size(p) >= p.mb THEN Size(p) \div p.b ELSE 1
                    r == IF Size(p) >= p.mb THEN Size(p) % p.b ELSE 0
                IN p.f + (j + 1) * q + (IF j < r THEN j + 1 ELSE r)
FirstOf(p, j) == IF j > 0 THEN LastOf(p, j - 1) ELSE p.f

Call(t, s) == /\ pc[t] = "idle" /\ left[t] > 0 /\ m.p[s].k # 0
              /\ s = 2 => \A u \in 1..Threads : pc[u] \notin {"copy", "copied"}
              /\ m' = Next(m, t, s)
              /\ pc' = [pc EXCEPT ![t] = "load"]
              /\ left' = [left EXCEPT ![t] = @ - 1]
              /\ UNCHANGED <<x, seen>>
CopyCall(t) == /\ pc[t] = "idle" /\ m.p[2].k = 0 /\ left[t] > 0
               /\ m' = Copy(m, t, 2, 1) /\ pc' = [pc EXCEPT ![t] = "copy"]
               /\ left' = [left EXCEPT ![t] = @ - 1]
               /\ UNCHANGED <<x, seen>>
CopyLoad(t) == pc[t] = "copy" /\ x' = [x EXCEPT ![2] = x[1]] /\ pc' = [pc EXCEPT ![t] = "copied"] /\ UNCHANGED <<m, seen, left>>
CopyRet(t) == /\ pc[t] = "copied"
              /\ m' = Ret(m, t, IF Size(m.p[1]) > 0 THEN 1 ELSE 0, m.p[1].b, m.p[1].l - m.p[1].f)
              /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<x, seen, left>>
\* chunks
Load(t) == pc[t] = "load" /\ P(t).k = 1 /\ seen' = [seen EXCEPT ![t] = X(t)] /\ pc' = [pc EXCEPT ![t] = "cas"] /\ UNCHANGED <<m, x, left>>
Cas(t) == /\ pc[t] = "cas"
          /\ LET c == Min0(P(t).l - seen[t], P(t).g) IN
             IF c <= 0 THEN pc' = [pc EXCEPT ![t] = "none"] /\ UNCHANGED x
             ELSE IF X(t) = seen[t] THEN x' = [x EXCEPT ![m.c[t].s] = @ + c] /\ pc' = [pc EXCEPT ![t] = "range"]
             ELSE pc' = [pc EXCEPT ![t] = "load"] /\ UNCHANGED x
          /\ UNCHANGED <<m, seen, left>>
\* equal sizes
Fetch(t) == /\ pc[t] = "load" /\ P(t).k = 3
            /\ seen' = [seen EXCEPT ![t] = X(t)] /\ x' = [x EXCEPT ![m.c[t].s] = @ + 1]
            /\ pc' = [pc EXCEPT ![t] = IF X(t) >= P(t).b THEN "none" ELSE "range"]
            /\ UNCHANGED <<m, left>>
GotRange(t) ==
            /\ pc[t] = "range"
            /\ m' = IF P(t).k = 1 THEN Ret(m, t, 1, seen[t], seen[t] + Min0(P(t).l - seen[t], P(t).g))
                    ELSE Ret(m, t, 1, FirstOf(P(t), seen[t]), LastOf(P(t), seen[t]))
            /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<x, seen, left>>
GotNone(t) == pc[t] = "none" /\ m' = Ret(m, t, 0, 0, 0) /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<x, seen, left>>
Step(t) == CopyCall(t) \/ CopyLoad(t) \/ CopyRet(t) \/ Load(t) \/ Cas(t) \/ Fetch(t) \/ GotRange(t) \/ GotNone(t) \/ \E s \in 1..2 : Call(t, s)
Next1 == \E t \in 1..Threads : Step(t)
Spec == Init /\ [][Next1]_vars /\ \A t \in 1..Threads : WF_vars(Step(t))
Contract == m.bad = {}
Complete == (\A t \in 1..Threads : pc[t] = "idle") => End(m).bad = {}
\* a call under way always returns
Returns == \A t \in 1..Threads : []<>(pc[t] = "idle")
=============================================================================
