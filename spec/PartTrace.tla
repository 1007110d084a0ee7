----------------------------- MODULE PartTrace ------------------------------
(* Do the recorded histories of partitioners respect the contract? *)
EXTENDS Partition, TLC, TLCExt, Json, IOUtils

Traces  == ndJsonDeserialize(IOEnv.TRACES)
Enforce == {x \in {ndJsonDeserialize(IOEnv.ENFORCE)[1][i] : i \in 1..Len(ndJsonDeserialize(IOEnv.ENFORCE)[1])} : TRUE}
VARIABLES k, i, m, bad
vars == <<k, i, m, bad>>
Ev == Traces[k].ev
Init == k \in 1..Len(Traces) /\ i = 0 /\ m = InitM(8, Traces[k].nt) /\ bad = {}
Apply(e) ==
    LET t == e[2] + 1 IN
    CASE e[1] = "p" -> New(m, t, e[3], e[4], e[5], e[6], e[7], e[8])
      [] e[1] = "y" -> Copy(m, t, e[3], e[4])
      [] e[1] = "v" -> Info(m, t, e[3])
      [] e[1] = "n" -> Next(m, t, e[3])
      [] e[1] = "r" -> Ret(m, t, e[3], e[4], e[5])
      [] e[1] = "E" -> End(m)
      [] OTHER -> m
Step == /\ i < Len(Ev)
        /\ bad = {}
        /\ LET e == Ev[i + 1] IN
           /\ i' = i + 1
           /\ m' = Apply(e)
           /\ bad' = m'.bad \cup (IF e[1] \in {"RACE", "UAF"} /\ e[3] \in Enforce THEN {<<e[1], e[3]>>} ELSE {})
                     \cup (IF e[1] \in {"STUCK", "LIVELOCK", "ABORT", "CRASH", "CHECK", "HANG"} THEN {<<"FATAL", e[1]>>} ELSE {})
           /\ bad' # {} => PrintT("@BAD " \o ToJson(<<Traces[k].id, i', bad'>>))
        /\ (i' = Len(Ev) /\ bad' = {}) => PrintT("@OK " \o ToJson(<<Traces[k].id>>))
        /\ UNCHANGED k
Spec == Init /\ [][Step]_vars
Accepted == bad = {}
=============================================================================
