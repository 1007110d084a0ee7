------------------------------ MODULE HBTrace -------------------------------
(***************************************************************************)
(* Judges the synchronization and memory accesses recorded from executions *)
(* of the real code: free of data races?  (Accesses to granules that only  *)
(* one thread touches, or nobody writes, have been left out.)              *)
(***************************************************************************)
EXTENDS HB, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Block == 64     \* events per step of TLC

VARIABLES k, s
vars == <<k, s>>
View == <<k, s.i, s.race>>

Init == /\ k \in 1..Len(Traces)
        /\ s = InitHB(Traces[k].nt, Traces[k].no, Traces[k].ng)
        /\ TLCFP(s) # -1

RECURSIVE Run(_, _, _)
Run(x, ev, n) == IF n = 0 \/ x.i = Len(ev) \/ x.race # {} THEN x ELSE Run(ApplyHB(x, ev[x.i + 1]), ev, n - 1)

Next == /\ s.race = {}
        /\ s.i < Len(Traces[k].ev)
        /\ s' = Run(s, Traces[k].ev, Block)
        /\ TLCFP(s') # -1
        /\ s'.race # {} => PrintT("@BAD " \o ToJson(<<Traces[k].id, s'.i, {<<"RACE", "C25">>}>>))
        /\ (s'.i = Len(Traces[k].ev) /\ s'.race = {}) => PrintT("@OK " \o ToJson(<<Traces[k].id>>))
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

NoRace == s.race = {}
=============================================================================
