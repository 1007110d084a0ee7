------------------------------ MODULE OqpiSched ------------------------------
(***************************************************************************)
(* How the scheduler of oqpi works: every access to shared state by        *)
(* clients and workers is a step (claiming a task, done flags, queues,     *)
(* tokens of sleeping workers, counters of forks, the number of unfinished *)
(* tasks, starting and stopping).  What becomes visible is fed into the    *)
(* contract: the model checker explores every interleaving of a program    *)
(* and judges it by the same guards as the executions of the real code.    *)
(*                                                                         *)
(* Each thread has a stack of frames; the frame on top says what comes     *)
(* next.  Every step consists of accesses the runtime can recognize in the *)
(* real code (Kinds), so a behaviour is a schedule that can be replayed.   *)
(***************************************************************************)
EXTENDS Contract, TLC, TLCExt, Json, IOUtils

CONSTANT Stamps   \* TRUE: the moments of events are remembered (order of queues)

Progs == ndJsonDeserialize(IOEnv.PROGS)
GenK  == IF "GENK" \in DOMAIN IOEnv THEN atoi(IOEnv.GENK) ELSE 0   \* print one of so many schedules on the way
Whole == "WHOLE" \in DOMAIN IOEnv                                 \* print the schedules of whole behaviours (simulation)

VARIABLES pi,       \* the program
          p, I, x,  \* (constant) program and its structure
          z,        \* the state
          h         \* the schedule so far (only when behaviours are generated)
vars == <<pi, p, I, x, z, h>>
View == <<pi, z>>

\* kinds of accesses
EV == 1  POST == 2  SWAIT == 3  STRY == 4  LOCK == 5  CAS == 6  STORE == 7  LOAD == 8  CNT == 9  UNF == 10  IDX == 11

ADD == 1 WAIT == 2 AWT == 3 DON == 4 RES == 5 ST == 6 IDLE == 7 DROP == 9 START == 10 STOP == 11 QUI == 12 PFOR == 13 GBLOCK == 15 GOPEN == 16 WCNT == 17 WFR == 18 ADDM == 19 YIELD == 20 WTOT == 21 MAKE == 22

NW == Len(p.workers)
NC == p.nclients
Clients == 0..(NC - 1)
WOf(t) == (t - NC) % NW
Tid(run, w) == NC + (run - 1) * NW + w
Ops(o) == IF o < 0 THEN p.ops[-o] ELSE p.body[o]

\* The tasks and groups of a parallel loop are created by it: group 1000 + 64 k, batches from 1001 + 64 k on
SeqOf(S) == [i \in 1..Cardinality(S) |-> CHOOSE m \in S : Cardinality({y \in S : y < m}) = i - 1]
Struct(pp, II) ==
    LET pf(n) == pp.pfors[PfOf(n) + 1]
        grp(n) == n - ((n - 1000) % 64)
        ids == II.N \cup II.pfg \cup {n \in II.pfb : n - grp(n) <= pf(n).nb}
        task(n) == IF IsPf(n) THEN n # grp(n) ELSE n \in II.tasks
    IN [ ids  |-> ids,
         kids |-> [n \in ids |-> IF IsPf(n) THEN (IF n = grp(n) THEN [i \in 1..pf(n).nb |-> n + i] ELSE <<>>) ELSE SeqOf(II.kids[n])],
         par  |-> [n \in ids |-> IF IsPf(n) THEN (IF n = grp(n) THEN 0 ELSE grp(n)) ELSE pp.nodes[n].par],
         task |-> [n \in ids |-> task(n)],
         fork |-> [n \in ids |-> IF IsPf(n) THEN n = grp(n) ELSE pp.nodes[n].kind = 2],
         eff  |-> [n \in ids |-> IF IsPf(n) THEN pf(n).prio ELSE II.eff[n]],
         wt   |-> [n \in ids |-> IF IsPf(n) THEN n = grp(n) ELSE pp.nodes[n].wait = 1],
         max  |-> [n \in ids |-> IF IsPf(n) THEN 0 ELSE pp.nodes[n].max] ]
Kid(q, i) == x.kids[q][i + 1]          \* i from 0
NKids(q) == Len(x.kids[q])
Max(q) == x.max[q]

---------------------------------------------------------------------------
(* frames *)
Evs(es) == <<<<"evs", es>>>>
OpsFrames(o) == IF Ops(o) = <<>> THEN <<>> ELSE <<<<"op", o, 1>>>>
Note(n) == IF x.wt[n] THEN <<<<"note", n>>>> ELSE <<>>
Wait(n) == <<<<"take", n>>, <<"put", n>>>>
RECURSIVE GroupDone(_)
RECURSIVE Parent(_)
Parent(n) == LET q == x.par[n] IN
    IF q = 0 THEN <<>>
    ELSE IF x.fork[q] THEN <<<<"fkdone", q>>>>
    ELSE IF n = Kid(q, NKids(q) - 1) THEN GroupDone(q)
    ELSE <<<<"add", MinS({m \in I.kids[q] : m > n})>>>>
GroupDone(q) == <<<<"sdone", q>>>> \o Evs(<<<<"gY", q>>, <<"gZ", q>>>>) \o Note(q) \o Parent(q)
Function(n) == IF IsPf(n) THEN <<<<"rng", PfOf(n), n - PfGroup(PfOf(n)) - 1>>>>
               ELSE Evs(<<<<"bs", n>>>>) \o OpsFrames(n) \o Evs(<<<<"be", n>>>>)
Invoke(n) == Evs(<<<<"hA", n>>, <<"hB", n>>>>) \o Function(n)
             \o <<<<"sdone", n>>>> \o Evs(<<<<"hY", n>>, <<"hZ", n>>>>) \o Note(n)
FkLoop(q, s) == IF Max(q) > 0 /\ s + 1 >= Max(q) THEN <<<<"grabx", Kid(q, 0)>>>> ELSE <<<<"fkl", q, s + 1>>>>
Exec(n) == IF x.task[n] THEN Invoke(n) \o Parent(n)
           ELSE Evs(<<<<"gA", n>>, <<"gB", n>>>>) \o (IF x.fork[n] THEN FkLoop(n, 0) ELSE <<<<"grabx", Kid(n, 0)>>>>)
AwLoop(q, i) == IF i >= NKids(q) THEN Wait(q) ELSE IF Max(q) > 0 THEN <<<<"awm", q, i>>>> ELSE <<<<"awg", q, i>>>>
\* a group or task is created by the thread itself: accesses nobody else can see
Create(n) ==
    LET member(m) == <<<<EV, <<"hg", m, n>>>>>> \o (IF x.fork[n] THEN <<<<CNT, <<>>>>>> ELSE <<>>) \o <<<<EV, <<"ht", n, m>>>>>>
        one(m) == (IF IsPf(n) THEN <<<<CNT, <<>>>>>> ELSE <<>>) \o member(m)
        RECURSIVE All(_)
        All(i) == IF i > NKids(n) THEN <<>> ELSE one(x.kids[n][i]) \o All(i + 1)
    IN <<<<"cre", <<<<CNT, <<>>>>>> \o (IF x.task[n] THEN <<>> ELSE All(1))>>>>
Loop(k) ==
    LET d == p.pfors[k + 1]  g == PfGroup(k) IN
    (IF d.last <= d.first THEN <<>>
     ELSE Create(g) \o <<<<"add", g>>>> \o (IF d.aw = 1 THEN AwLoop(g, 0) ELSE Wait(g)))
    \o Evs(<<<<"pr", k>>>>)
StKids(q) == [i \in 1..NKids(q) |-> <<"st", Kid(q, i - 1)>>]
SingleThreaded(n) ==
    IF x.task[n] THEN Invoke(n)
    ELSE Evs(<<<<"gA", n>>, <<"gB", n>>>>) \o StKids(n) \o Evs(<<<<"gY", n>>, <<"gZ", n>>>>) \o <<<<"sdone", n>>>> \o Note(n)
\* the iterations first..last - 1 of a batch of loop k
Iters(k, b, first, last) ==
    LET bb == IF p.pfors[k + 1].batch = 1 THEN b ELSE -1
    IN IF last <= first THEN <<>>
       ELSE Evs([i \in 1..(2 * (last - first)) |-> <<IF i % 2 = 1 THEN "it" ELSE "iz", k, bb, first + (i - 1) \div 2>>])
FirstOf(d, b) == LET n == d.last - d.first  each == n \div d.nb  rem == n % d.nb
                 IN d.first + b * each + (IF b < rem THEN b ELSE rem)
\* the priorities served by worker w, from prio on
NextPrio(w, prio) == LET S == {k \in prio..4 : Eligible(p, w, k)} IN IF S = {} THEN 5 ELSE MinS(S)
NextWorker(w, prio) == LET S == {v \in I.W : v >= w /\ Eligible(p, v, prio)} IN IF S = {} THEN -1 ELSE MinS(S)
Wake(w, prio) == LET v == NextWorker(w, prio) IN IF v < 0 THEN <<>> ELSE <<<<"wake", v, prio>>>>
Each(f) == [i \in 1..NW |-> <<f, i - 1>>]

---------------------------------------------------------------------------
Top1(zz, t) == zz.k[t][1]
R(zz, t, frames) == [zz EXCEPT !.k[t] = frames \o Tail(@)]
RECURSIVE EmitAll(_, _, _)
EmitAll(c, t, es) ==
    IF es = <<>> THEN c
    ELSE LET e == Head(es)
             d == Apply(p, I, c, <<e[1], t>> \o Tail(e)) IN
         EmitAll([d EXCEPT !.i = IF Stamps THEN @ ELSE 0, !.bad = @ \cup c.bad], t, Tail(es))
Emit(zz, t, es) == [zz EXCEPT !.c = EmitAll(@, t, es)]

\* what an operation of a client or function turns into: <<events at once, frames>>
OpStep(o, op, t) ==
    LET n == op[2] IN
    CASE op[1] = ADD    -> <<<<<<"ac", n>>>>, <<<<"add", n>>>> \o Evs(<<<<"ar", n>>>>)>>
      [] op[1] = ADDM   -> <<<<<<"ac", n>>, <<"d", n, o>>>>, <<<<"add", n>>>> \o Evs(<<<<"ar", n>>>>)>>
      [] op[1] = WAIT   -> <<<<<<"wc", n>>>>, Wait(n) \o Evs(<<<<"wr", n>>>>)>>
      [] op[1] = WFR    -> <<<<<<"wc", n>>>>, Wait(n) \o Evs(<<<<"wr", n>>, <<"rr", n, 1000 + n>>>>)
                                              \o (IF op[3] # 0 THEN Wait(n) \o Evs(<<<<"rr", n, 1000 + n>>>>) ELSE <<>>)>>
      [] op[1] = MAKE   -> <<<<<<"ac", n>>>> \o (IF x.task[n] /\ ~x.wt[n] THEN <<<<"d", n, o>>>> ELSE <<>>),
                             Create(n) \o <<<<"add", n>>>> \o Evs(<<<<"ar", n>>>>)>>
      [] op[1] = YIELD  -> <<<<>>, <<>>>>
      [] op[1] = PFOR   -> <<<<<<"pc", n>>>>, Loop(n)>>
      [] op[1] = AWT    -> <<<<<<"Ac", n>>>>, (IF x.task[n] THEN <<<<"awt", n>>>> ELSE AwLoop(n, 0)) \o Evs(<<<<"Ar", n>>>>)>>
      [] op[1] = DON    -> <<<<<<"dq", n>>>>, <<<<"isd", n>>>>>>
      [] op[1] = ST     -> <<<<<<"sc", n>>>>, <<<<"st", n>>>> \o Evs(<<<<"sr", n>>>>)>>
      [] op[1] = IDLE   -> <<<<<<"is">>>>, <<<<"idl">>>>>>
      [] op[1] = DROP   -> <<<<<<"d", n, o>>>>, <<>>>>
      [] op[1] = START  -> <<<<<<"Sc">>>>, <<<<"srun">>>> \o Each("swk") \o Evs(<<<<"Sr">>>>)>>
      [] op[1] = STOP   -> <<<<<<"Tc">>>>, Each("twk") \o <<<<"trun">>>> \o Each("twake") \o <<<<"join">>>>>>
      [] op[1] = QUI    -> <<<<<<"Q">>>>, <<>>>>
      [] op[1] = GBLOCK -> <<<<<<"gb", n>>>>, <<<<"gate", n>>>>>>
      [] op[1] = GOPEN  -> <<<<<<"go", n>>>>, <<>>>>
      [] op[1] = WCNT   -> <<<<<<"wn", n, Cardinality({w \in I.W : Eligible(p, w, n)})>>>>, <<>>>>
      [] op[1] = WTOT   -> <<<<<<"wn", 9, NW>>>>, <<>>>>

\* whether the thread can take a step
Moves(zz, t) ==
    /\ zz.k[t] # <<>>
    /\ LET f == Top1(zz, t) IN
       CASE f[1] = "take"  -> zz.e[f[2]] > 0
         [] f[1] = "sleep" -> zz.sm[WOf(t)] > 0
         [] f[1] = "join"  -> \A u \in I.T : u >= NC => zz.k[u] = <<>>
         [] f[1] = "gate"  -> f[2] \in zz.gt
         [] OTHER -> TRUE
AtRest(zz, t) == zz.k[t] # <<>> /\ Top1(zz, t)[1] = "op" /\ Ops(Top1(zz, t)[2])[Top1(zz, t)[3]][1] = QUI
Enabled1(zz, t) == Moves(zz, t) /\ (AtRest(zz, t) => \A u \in I.T : (Moves(zz, u) /\ u # t) => (AtRest(zz, u) /\ u > t))

\* the step: <<kinds, state>>
Do(zz, t) ==
    LET f == Top1(zz, t)
        w == WOf(t)
        n == f[2]
    IN
    CASE f[1] = "op" ->
           LET o == f[2]
               op == Ops(o)[f[3]]
               rest == IF f[3] < Len(Ops(o)) THEN <<<<"op", o, f[3] + 1>>>> ELSE <<>>
           IN IF op[1] = RES THEN
                IF op[2] \in zz.d
                THEN LET es == IF op[3] # 0 THEN <<<<"rq", op[2]>>, <<"rr", op[2], 1000 + op[2]>>, <<"rr", op[2], 1000 + op[2]>>>>
                               ELSE <<<<"rq", op[2]>>, <<"rr", op[2], 1000 + op[2]>>>> IN
                     <<<<LOAD>>, R(zz, t, Evs(es) \o rest)>>
                ELSE <<<<LOAD>>, R(zz, t, rest)>>
              ELSE LET s == OpStep(o, op, t)
                       y == R(zz, t, s[2] \o rest)
                       st == IF op[1] = GOPEN THEN [y EXCEPT !.gt = @ \cup {op[2]}]
                            ELSE IF op[1] = START THEN [y EXCEPT !.nr = @ + 1] ELSE y IN
                   <<[i \in 1..Len(s[1]) |-> EV], Emit(st, t, s[1])>>
      [] f[1] = "evs"   -> <<[i \in 1..Len(n) |-> EV], Emit(R(zz, t, <<>>), t, n)>>
      \* scheduling
      [] f[1] = "add"   -> <<<<LOAD>>, R(zz, t, IF n \in zz.g THEN <<>> ELSE <<<<"add2", n>>>>)>>
      [] f[1] = "add2"  -> <<<<LOAD>>, R(zz, t, IF n \in zz.d THEN <<>> ELSE <<<<"add3", n>>>>)>>
      [] f[1] = "add3"  -> <<<<UNF>>, [R(zz, t, <<<<"add4", n>>>>) EXCEPT !.un = @ + 1]>>
      [] f[1] = "add4"  -> <<<<LOCK>>, [R(zz, t, Wake(0, x.eff[n])) EXCEPT !.q[x.eff[n]] = Append(@, n)]>>
      [] f[1] = "wake"  -> <<<<POST>>, [R(zz, t, Wake(n + 1, f[3])) EXCEPT !.sm[n] = @ + 1]>>
      \* tasks and groups
      [] f[1] = "sdone" -> <<<<STORE>>, [R(zz, t, <<>>) EXCEPT !.d = @ \cup {n}]>>
      [] f[1] = "note"  -> <<<<POST>>, [R(zz, t, <<>>) EXCEPT !.e[n] = @ + 1]>>
      [] f[1] = "fkdone" -> <<<<CNT>>, [R(zz, t, IF zz.ac[n] = 1 THEN GroupDone(n) ELSE IF Max(n) > 0 THEN <<<<"fknext", n>>>> ELSE <<>>) EXCEPT !.ac[n] = @ - 1]>>
      [] f[1] = "fknext" -> <<<<CNT>>, [R(zz, t, IF zz.ix[n] < NKids(n) THEN <<<<"maybe", Kid(n, zz.ix[n])>>>> ELSE <<>>) EXCEPT !.ix[n] = @ + 1]>>
      [] f[1] = "fkl"   -> <<<<CNT>>, [R(zz, t, IF zz.ix[n] < NKids(n) THEN <<<<"maybe", Kid(n, zz.ix[n])>>>> \o FkLoop(n, f[3]) ELSE <<<<"grabx", Kid(n, 0)>>>>) EXCEPT !.ix[n] = @ + 1]>>
      [] f[1] = "maybe" -> <<<<LOAD>>, R(zz, t, IF n \in zz.g THEN <<>> ELSE <<<<"maybe2", n>>>>)>>
      [] f[1] = "maybe2" -> <<<<LOAD>>, R(zz, t, IF n \in zz.d THEN <<>> ELSE <<<<"add", n>>>>)>>
      [] f[1] = "grabx" -> IF n \in zz.g THEN <<<<CAS>>, R(zz, t, <<>>)>> ELSE <<<<CAS>>, [R(zz, t, Exec(n)) EXCEPT !.g = @ \cup {n}]>>
      \* waiting
      [] f[1] = "take"  -> <<<<SWAIT>>, [R(zz, t, <<>>) EXCEPT !.e[n] = @ - 1]>>
      [] f[1] = "put"   -> <<<<POST>>, [R(zz, t, <<>>) EXCEPT !.e[n] = @ + 1]>>
      [] f[1] = "awt"   -> IF n \in zz.g THEN <<<<CAS>>, R(zz, t, Wait(n))>> ELSE <<<<CAS>>, [R(zz, t, Exec(n)) EXCEPT !.g = @ \cup {n}]>>
      [] f[1] = "awm"   -> <<<<CNT>>, R(zz, t, IF f[3] >= zz.ix[n] THEN Wait(n) ELSE <<<<"awg", n, f[3]>>>>)>>
      [] f[1] = "awg"   -> LET m == Kid(n, f[3]) IN
                           IF m \in zz.g THEN <<<<CAS>>, R(zz, t, AwLoop(n, f[3] + 1))>>
                           ELSE <<<<CAS>>, [R(zz, t, Exec(m) \o AwLoop(n, f[3] + 1)) EXCEPT !.g = @ \cup {m}]>>
      [] f[1] = "st"    -> IF n \in zz.g THEN <<<<CAS>>, R(zz, t, <<>>)>> ELSE <<<<CAS>>, [R(zz, t, SingleThreaded(n)) EXCEPT !.g = @ \cup {n}]>>
      [] f[1] = "cre"   -> LET es == SelectSeq(n, LAMBDA a : a[1] = EV) IN
                           <<[i \in 1..Len(n) |-> n[i][1]], Emit(R(zz, t, <<>>), t, [i \in 1..Len(es) |-> es[i][2]])>>
      \* ranges of a parallel loop: a counter of batches, or an index moved by compare and swap
      [] f[1] = "rng"   -> LET d == p.pfors[n + 1]  at == zz.rg[n] IN
                           IF d.atomic = 0
                           THEN <<<<IDX>>, [R(zz, t, IF at < d.nb THEN Iters(n, f[3], FirstOf(d, at), FirstOf(d, at + 1)) \o <<f>> ELSE <<>>) EXCEPT !.rg[n] = @ + 1]>>
                           ELSE <<<<IDX>>, R(zz, t, IF d.first + at < d.last THEN <<<<"rngc", n, f[3], at>>>> ELSE <<>>)>>
      [] f[1] = "rngc"  -> LET d == p.pfors[n + 1]  from == d.first + f[4]  to == IF from + d.grab < d.last THEN from + d.grab ELSE d.last IN
                           IF zz.rg[n] = f[4] THEN <<<<IDX>>, [R(zz, t, Iters(n, f[3], from, to) \o <<<<"rng", n, f[3]>>>>) EXCEPT !.rg[n] = to - d.first]>>
                           ELSE <<<<IDX>>, R(zz, t, <<<<"rng", n, f[3]>>>>)>>
      [] f[1] = "isd"   -> <<<<LOAD>>, R(zz, t, Evs(<<<<"dr", n, IF n \in zz.d THEN 1 ELSE 0>>>>))>>
      [] f[1] = "idl"   -> <<<<UNF>>, R(zz, t, Evs(<<<<"ie", IF zz.un = 0 THEN 1 ELSE 0>>>>))>>
      [] f[1] = "gate"  -> <<<<EV>>, Emit(R(zz, t, <<>>), t, <<<<"gp", n>>>>)>>
      \* starting and stopping
      [] f[1] = "srun"  -> <<<<STORE>>, [R(zz, t, <<>>) EXCEPT !.run = TRUE]>>
      [] f[1] = "swk"   -> <<<<STORE>>, [R(zz, t, <<>>) EXCEPT !.wr[n] = TRUE, !.k[Tid(zz.nr, n)] = Evs(<<<<"wS", n>>>>) \o <<<<"wloop">>>>]>>
      [] f[1] = "twk"   -> <<<<STORE>>, [R(zz, t, <<>>) EXCEPT !.wr[n] = FALSE]>>
      [] f[1] = "trun"  -> <<<<STORE>>, [R(zz, t, <<>>) EXCEPT !.run = FALSE]>>
      [] f[1] = "twake" -> <<<<POST>>, [R(zz, t, <<>>) EXCEPT !.sm[n] = @ + 1]>>
      [] f[1] = "join"  -> <<<<EV>>, Emit(R(zz, t, <<>>), t, <<<<"Tr", 0>>>>)>>
      \* workers
      [] f[1] = "wloop" -> <<<<LOAD>>, R(zz, t, IF zz.wr[w] THEN Evs(<<<<"wI", w>>>>) \o <<<<"drain">>>> ELSE Evs(<<<<"wT", w>>>>))>>
      [] f[1] = "drain" -> IF zz.sm[w] > 0 THEN <<<<STRY>>, [zz EXCEPT !.sm[w] = @ - 1]>> ELSE <<<<STRY>>, R(zz, t, <<<<"pump">>>>)>>
      [] f[1] = "pump"  -> <<<<LOAD>>, R(zz, t, IF zz.run THEN <<<<"pop", NextPrio(w, 0)>>>> ELSE <<<<"none">>>>)>>
      [] f[1] = "pop"   -> LET next == NextPrio(w, n + 1) IN
                           IF zz.q[n] # <<>> THEN <<<<LOCK>>, [R(zz, t, <<<<"try", Head(zz.q[n]), n>>>>) EXCEPT !.q[n] = Tail(@)]>>
                           ELSE <<<<LOCK>>, R(zz, t, IF next < 5 THEN <<<<"pop", next>>>> ELSE <<<<"sleep">>>>)>>
      [] f[1] = "try"   -> IF n \in zz.g THEN <<<<CAS>>, R(zz, t, <<<<"drop", f[3]>>>>)>> ELSE <<<<CAS>>, [R(zz, t, <<<<"tryd", n, f[3]>>>>) EXCEPT !.g = @ \cup {n}]>>
      [] f[1] = "tryd"  -> <<<<LOAD>>, R(zz, t, IF n \in zz.d THEN <<<<"drop", f[3]>>>> ELSE <<<<"got", n>>>>)>>
      [] f[1] = "drop"  -> <<<<UNF>>, [R(zz, t, <<<<"pop", n>>>>) EXCEPT !.un = @ - 1]>>
      [] f[1] = "sleep" -> <<<<SWAIT>>, [R(zz, t, <<<<"drain">>>>) EXCEPT !.sm[w] = @ - 1]>>
      [] f[1] = "got"   -> <<<<LOAD>>, R(zz, t, IF n \in zz.d THEN <<<<"gone">>>>
                                                ELSE Evs(<<<<"wA", w>>, <<"w1", w, n>>>>) \o Exec(n) \o Evs(<<<<"w2", w, n>>>>) \o <<<<"fin">>>>)>>
      [] f[1] = "gone"  -> <<<<UNF>>, [R(zz, t, <<<<"drain">>>>) EXCEPT !.un = @ - 1]>>
      [] f[1] = "none"  -> <<<<LOAD>>, R(zz, t, Evs(<<<<"wA", w>>>>) \o <<<<"wloop">>>>)>>
      [] f[1] = "fin"   -> <<<<UNF>>, [R(zz, t, <<<<"wloop">>>>) EXCEPT !.un = @ - 1]>>

---------------------------------------------------------------------------
InitZ(pp, II, xx) ==
    [ rg |-> [k \in 0..(Len(pp.pfors) - 1) |-> 0],
      g |-> {}, d |-> {},
      e |-> [n \in xx.ids |-> 0],
      q |-> [k \in 0..4 |-> <<>>],
      sm |-> [w \in II.W |-> 0], wr |-> [w \in II.W |-> FALSE], run |-> FALSE, un |-> 0, nr |-> 0,
      ac |-> [n \in {m \in xx.ids : ~xx.task[m]} |-> Len(xx.kids[n])], ix |-> [n \in {m \in xx.ids : ~xx.task[m]} |-> 1],
      gt |-> {},
      k |-> [t \in II.T |-> IF t < pp.nclients /\ pp.ops[t + 1] # <<>> THEN <<<<"op", -(t + 1), 1>>>> ELSE <<>>],
      c |-> InitC(pp, II) ]

Init == /\ pi \in 1..Len(Progs)
        /\ p = Progs[pi]
        /\ I = Info(p)
        /\ x = Struct(p, I)
        /\ z = InitZ(p, I, x)
        /\ h = <<>>
        /\ TLCFP(<<I, x, z>>) # -1

Turn(t) == /\ Enabled1(z, t)
           /\ LET s == Do(z, t) IN
              /\ z' = s[2]
              /\ h' = IF GenK = 0 /\ ~Whole THEN <<>> ELSE h \o [i \in 1..Len(s[1]) |-> t * 16 + s[1][i]]
              /\ (GenK > 0 => (RandomElement(1..GenK) = 1 => PrintT("@GEN " \o ToJson(<<pi, h'>>))))
              /\ (Whole => ((\A u \in I.T : ~Enabled1(s[2], u)) => PrintT("@GEN " \o ToJson(<<pi, h'>>))))
           /\ UNCHANGED <<pi, p, I, x>>
Next == \E t \in I.T : Turn(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished1 == \A t \in Clients : z.k[t] = <<>>
---------------------------------------------------------------------------
\* Lifetimes aren't modelled; K12 is the recorded finding about the pre-execute hook of forks
Contracted == \A v \in z.c.bad : v[1] \in {"C22", "K12"}
\* Nothing moves any more: every client got through
NobodyStuck == (\A t \in I.T : ~Enabled1(z, t)) => Finished1
\* the counter of unfinished tasks is what it says
Unfinished1 == z.un >= 0
\* a queued handle that nobody has claimed has a worker on its way, or all eligible ones are busy
NoLostWakeup ==
    (\A t \in I.T : ~Moves(z, t)) =>
        \A k \in 0..4 : z.run /\ z.q[k] # <<>> => \A w \in I.W : Eligible(p, w, k) =>
            \E t \in I.T : t >= NC /\ WOf(t) = w /\ z.k[t] # <<>> /\ Top1(z, t)[1] # "sleep"
\* done implies claimed or a group completed by its members; nothing is claimed twice
DoneClaimed == \A n \in z.d : x.task[n] => n \in z.g
\* With fair threads, every program comes to its end (no thread runs in circles)
FairSpec == Init /\ [][Next]_vars /\ \A t \in 0..15 : WF_vars(t \in I.T /\ Turn(t))
Ends == <>[]Finished1
=============================================================================
