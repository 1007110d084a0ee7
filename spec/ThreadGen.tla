----------------------------- MODULE ThreadGen ------------------------------
(***************************************************************************)
(* Behaviours of the specification of thread objects as the owner of a few *)
(* objects sees them: one program per transition of the state graph; the   *)
(* launched callables run in any way.  The invariants hold of the          *)
(* specification whatever the launched threads do.                         *)
(***************************************************************************)
EXTENDS Threads, TLC, Json
CONSTANTS Slots, Depth
VARIABLES m, n, hist
vars == <<m, n, hist>>
Init == m = InitT(16, 24, 8) /\ n = 0 /\ hist = <<>>
E(op, s, x, y, z, h) == <<"c", 0, op, s, x, y, z, h, -1, 2, 0>>
Do(e, r, v, o) == m' = Return(Call(m, e), <<"r", 0, r, v>>) /\ hist' = Append(hist, o)
Free(s) == ~Joinable(m, s)
Running == {j \in DOMAIN m.k : m.k[j].st \in {"launched", "running"}}
Own == \/ \E s \in Slots : Free(s) /\ n < 3 /\ Do(E("new", s, n, 0, 5, 0), 1, 0, <<1, s - 1, 1, 0, 5>>) /\ n' = n + 1
       \/ \E s \in Slots : ~m.in[s] /\ Do(E("def", s, 0, 0, 0, 0), 0, 0, <<2, s - 1, 0, 0, 0>>) /\ UNCHANGED n
       \/ \E s, d \in Slots : /\ m.in[s] /\ (IF m.in[d] THEN Free(d) \/ d = s ELSE TRUE)
                              /\ LET a == Move(m, d, s) IN Do(E("mov", d, s, 0, 0, 0), B(Joinable(a, d)), B(Joinable(a, s)), <<IF m.in[d] THEN 4 ELSE 3, d - 1, s - 1, 0, 0>>)
                              /\ UNCHANGED n
       \/ \E s \in Slots : /\ m.in[s] /\ (Joinable(m, s) => m.k[m.ref[s]].st = "ended")
                           /\ Do(E("join", s, 0, 0, 0, 0), 0, IF Joinable(m, s) THEN 11 ELSE -1, <<5, s - 1, 0, 0, 0>>) /\ UNCHANGED n
       \/ \E s \in Slots : m.in[s] /\ Do(E("detach", s, 0, 0, 0, 0), 0, 0, <<6, s - 1, 0, 0, 0>>) /\ UNCHANGED n
       \/ \E s \in Slots : m.in[s] /\ Free(s) /\ Do(E("del", s, 0, 0, 0, 0), 0, 0, <<8, s - 1, 0, 0, 0>>) /\ UNCHANGED n
       \/ \E s \in Slots : m.in[s] /\ Joinable(m, s) /\ m.k[m.ref[s]].st # "launched" /\ Do(E("id", s, 0, 0, 0, 0), m.ref[s], 0, <<9, s - 1, 0, 0, 0>>) /\ UNCHANGED n
Others == \E j \in Running : /\ m' = IF m.k[j].st = "launched" THEN Begin(m, <<"b", j + 1, j, 0, 1>>) ELSE Ended(m, <<"e", j + 1, j>>)
                             /\ UNCHANGED <<n, hist>>
Next == Len(hist) < Depth /\ (Own \/ Others) /\ (hist' # hist => PrintT("@GEN " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
View == <<m, n>>
Consistent == m.bad = {}
\* a launch is referred to by at most one object
OneOwner == \A a, b \in Slots : a # b /\ m.ref[a] # None => m.ref[a] # m.ref[b]
RefersToLaunch == \A s \in Slots : m.ref[s] # None => m.in[s] /\ m.k[m.ref[s]].st # "no"
=============================================================================
