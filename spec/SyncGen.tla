------------------------------ MODULE SyncGen -------------------------------
(***************************************************************************)
(* Sequential behaviours of the specification of the synchronization       *)
(* objects, one for every transition of its state graph; each is replayed  *)
(* on the real objects.                                                    *)
(***************************************************************************)
EXTENDS Sync, TLC, Json, IOUtils

G     == ndJsonDeserialize(IOEnv.GEN)[1]
Kinds == G.kinds
Ops   == {G.ops[j] : j \in 1..Len(G.ops)}     \* <<op, a, b, c, d, e>> as the harness reads them
Depth == G.depth

VARIABLES c, hist
vars == <<c, hist>>

Abs(cc) ==   \* objects are told apart by the variables and names that refer to them
    LET obs(ob) == IF ob = 0 THEN <<0, 0, 0>>
                   ELSE <<CHOOSE j \in 1..Len(cc.s) + Len(cc.nm) :
                            /\ IF j <= Len(cc.s) THEN cc.s[j].ob = ob ELSE cc.nm[j - Len(cc.s)] = ob
                            /\ \A m \in 1..(j - 1) : (IF m <= Len(cc.s) THEN cc.s[m].ob # ob ELSE cc.nm[m - Len(cc.s)] # ob),
                          cc.o[ob].n, cc.o[ob].q>>
    IN <<[j \in DOMAIN cc.s |-> <<cc.s[j].in, cc.s[j].nm, cc.s[j].cr, obs(cc.s[j].ob)>>], [j \in DOMAIN cc.nm |-> obs(cc.nm[j])]>>
View == <<Abs(c)>>

Init == c = InitCfg(Len(Kinds), 8, 1) /\ hist = <<>>

In(s) == c.s[s].in
Ob(s) == c.s[s].ob # 0
CallOf(o) ==
    LET s == o[2] + 1 IN
    CASE o[1] = 1 -> <<~In(s), Call(c, 1, "new", s, o[3], o[4], <<o[5], o[6]>>)>>
      [] o[1] = 2 -> <<~In(s) /\ In(o[3] + 1), Call(c, 1, "movec", s, o[3] + 1, 0, <<0, 0>>)>>
      [] o[1] = 3 -> <<In(s) /\ In(o[3] + 1), Call(c, 1, "movea", s, o[3] + 1, 0, <<0, 0>>)>>
      [] o[1] = 4 -> <<In(s), Call(c, 1, "del", s, 0, 0, <<0, 0>>)>>
      [] o[1] = 10 -> <<In(s) /\ Ob(s), Call(c, 1, "notify", s, o[3], 0, <<0, 0>>)>>
      [] o[1] = 11 -> <<In(s) /\ Ob(s), Call(c, 1, "notifyAll", s, 0, 0, <<0, 0>>)>>
      [] o[1] = 12 -> <<In(s) /\ Ob(s), Call(c, 1, "try", s, 0, 0, <<0, 0>>)>>
      [] o[1] = 13 -> <<In(s) /\ Ob(s), Call(c, 1, "wait", s, 0, 0, <<0, 0>>)>>
      [] o[1] = 14 -> <<In(s) /\ Ob(s), Call(c, 1, "timed", s, 0, 0, <<0, 0>>)>>
      [] o[1] = 16 -> <<In(s) /\ Ob(s), Call(c, 1, "reset", s, 0, 0, <<0, 0>>)>>
      [] o[1] = 18 -> <<In(s) /\ Ob(s), Call(c, 1, "unlock", s, 0, 0, <<0, 0>>)>>
      [] o[1] = 20 -> <<In(s) /\ Ob(s), Call(c, 1, "push", s, o[3], 0, <<0, 0>>)>>
      [] o[1] = 21 -> <<In(s) /\ Ob(s), Call(c, 1, "pop", s, 0, 0, <<0, 0>>)>>
      [] o[1] = 22 -> <<In(s) /\ Ob(s), Call(c, 1, "empty", s, 0, 0, <<0, 0>>)>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops :
            LET cl == CallOf(o) IN
            /\ cl[1]
            /\ \E d \in Closure(Kinds, {cl[2]}, <<1, 0>>, FALSE) :
                 /\ d.p[1].ph = Done
                 /\ c' = [d EXCEPT !.p[1] = NoOp]
            /\ hist' = Append(hist, o)
            /\ PrintT("@GEN " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
\* what must hold of the specification itself
TypeOK == \A s \in DOMAIN c.s : c.s[s].ob \in 0..Len(c.o) /\ (c.s[s].ob # 0 => c.s[s].in)
Bounded == \A j \in DOMAIN c.o : c.o[j].n >= 0 /\ c.o[j].n <= c.o[j].m
OneCreator == \A a, b \in DOMAIN c.s : a # b /\ c.s[a].cr /\ c.s[b].cr => c.s[a].nm # c.s[b].nm
NameHasCreator == \A x \in DOMAIN c.nm : c.nm[x] # 0 => \E s \in DOMAIN c.s : c.s[s].cr /\ c.s[s].nm = x /\ c.s[s].ob = c.nm[x]
=============================================================================
