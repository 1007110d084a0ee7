---------------------------- MODULE HandleTrace -----------------------------
(* Are the recorded executions of tasks and handles those of the specification? *)
EXTENDS Handles, TLC, TLCExt, Json, IOUtils
Traces  == ndJsonDeserialize(IOEnv.TRACES)
Enforce == {x \in {ndJsonDeserialize(IOEnv.ENFORCE)[1][i] : i \in 1..Len(ndJsonDeserialize(IOEnv.ENFORCE)[1])} : TRUE}
VARIABLES k, i, m, bad
vars == <<k, i, m, bad>>
Ev == Traces[k].ev
Init == k \in 1..Len(Traces) /\ i = 0 /\ m = InitH(40, 64, 8) /\ bad = {}
Apply(e) ==
    CASE e[1] = "c" -> Call(m, e)
      [] e[1] = "r" -> Return(m, e)
      [] e[1] = "b" -> Begin(m, e)
      [] e[1] = "e" -> Ended(m, e)
      [] e[1] = "cc" -> Say(m, e[3] >= 0 /\ e[4] = 1, "wrong name or owner given to the context")
      [] e[1] = "ki" -> Say(m, e[4] = 1, "what was copied into a task changes")
      [] e[1] = "cd" -> Dead(m, e[3])
      [] e[1] = "fd" -> Freed(m, e[3])
      [] e[1] = "Q" -> Quiet(m)
      [] e[1] = "E" -> End(m, e)
      [] OTHER -> m
Step == /\ i < Len(Ev)
        /\ bad = {}
        /\ LET e == Ev[i + 1] IN
           /\ i' = i + 1
           /\ m' = Apply(e)
           /\ bad' = {v \in m'.bad : v[1] \in Enforce} \cup (IF e[1] \in {"RACE", "UAF"} /\ e[3] \in Enforce THEN {<<e[1], e[3]>>} ELSE {})
                     \cup (IF e[1] = "UAF" THEN {<<"UAF", "memory is used after its release">>} ELSE {})
                     \cup (IF e[1] \in {"STUCK", "LIVELOCK", "ABORT", "CRASH", "CHECK", "HANG"} THEN {<<"FATAL", e[1]>>} ELSE {})
           /\ bad' # {} => PrintT("@BAD " \o ToJson(<<Traces[k].id, i', bad'>>))
        /\ (i' = Len(Ev) /\ bad' = {}) => PrintT("@OK " \o ToJson(<<Traces[k].id>>))
        /\ UNCHANGED k
Spec == Init /\ [][Step]_vars
Accepted == bad = {}
=============================================================================
