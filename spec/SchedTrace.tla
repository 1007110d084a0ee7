----------------------------- MODULE SchedTrace -----------------------------
(***************************************************************************)
(* Are the executions recorded from the real scheduler behaviours of the   *)
(* contract?  One behaviour per recorded trace, one step per event.        *)
(***************************************************************************)
EXTENDS Contract, TLC, TLCExt, Json, IOUtils

Progs  == ndJsonDeserialize(IOEnv.PROGS)
Traces == ndJsonDeserialize(IOEnv.TRACES)
\* labels of the guards to enforce; the others belong to other checks
Enforce == Rng(ndJsonDeserialize(IOEnv.ENFORCE)[1])

VARIABLES k,        \* the trace
          p, info,  \* its program and the structure of it
          c,        \* the state of the contract
          stop
vars == <<k, p, info, c, stop>>
\* the behaviours are deterministic: this tells their states apart
View == <<k, c.i, stop>>

Enforced(S) == {v \in S : v[1] \in Enforce \/ (v[1] \in {"RACE", "UAF"} /\ v[2] \in Enforce)}

Init == /\ k \in 1..Len(Traces)
        /\ p = [Progs[Traces[k].p] EXCEPT !.nt = Traces[k].nt]
        /\ info = Info(p)
        /\ c = InitC(p, info)
        /\ stop = FALSE
        /\ TLCFP(<<info, c>>) # -1      \* evaluates the functions in them once and for all

Step == /\ ~stop
        /\ c.i < Len(Traces[k].ev)
        /\ c' = Apply(p, info, c, Traces[k].ev[c.i + 1])
        /\ LET v == Enforced(c'.bad) IN
           /\ stop' = (v # {} /\ \A x \in v : x[1] \notin {"K12"})
           /\ v # {} => PrintT("@BAD " \o ToJson(<<Traces[k].id, c'.i, v>>))
        /\ (c'.i = Len(Traces[k].ev) /\ ~stop') => PrintT("@OK " \o ToJson(<<Traces[k].id>>))
        /\ UNCHANGED <<k, p, info>>

Next == Step
Spec == Init /\ [][Next]_vars

\* For the confirmation of a single trace
Accepted == Enforced(c.bad) = {}
=============================================================================
