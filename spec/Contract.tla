------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* What a user of oqpi may observe and rely on.                            *)
(*                                                                         *)
(* The state is a record c holding the abstract state of a run of one      *)
(* program p (workers, task graph, parallel loops, clients).  Every        *)
(* observable event e (a call or return of the public interface, a hook,   *)
(* the start and end of a function, a destruction) is one transition       *)
(* Apply(p, c, e).  Each transition has a guard per property; a guard that *)
(* fails is recorded in c.bad as <<property, detail>>.                      *)
(* The same operators judge the executions recorded from the real code     *)
(* (SchedTrace) and the behaviours of the implementation model (OqpiSched).*)
(*                                                                         *)
(* p is a record:                                                          *)
(*   workers  : sequence of bit masks, one per worker                      *)
(*   nodes    : sequence of [kind, prio, wait, par, max, late]             *)
(*              kind 0 task, 1 sequence, 2 fork; prio 0..4, 5 = inherit    *)
(*              late 1: created by the call that schedules it              *)
(*   pfors    : sequence of [first, last, nb, prio, aw]                    *)
(*              (aw 1: the calling thread helps, 0: it only waits)         *)
(*   holds    : sequence of <<holder, node>>: handles given at the start   *)
(*              (holder < 0: a client, > 0: the function of that task)     *)
(*   nt       : number of threads                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Rng(s) == {s[i] : i \in 1..Len(s)}
Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] OTHER -> 32
HasBit(mask, k) == k < 5 /\ (mask \div Pow2(k)) % 2 = 1
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y

-----------------------------------------------------------------------------
(* Structure of a program, computed once *)
PfGroup(k) == 1000 + 64 * k          \* k from 0
RECURSIVE AncOf(_, _)
AncOf(nodes, n) == IF n = 0 THEN {} ELSE {n} \cup AncOf(nodes, nodes[n].par)
RECURSIVE EffOf(_, _)
EffOf(nodes, n) == IF n = 0 THEN 2 ELSE IF nodes[n].prio # 5 THEN nodes[n].prio ELSE EffOf(nodes, nodes[n].par)
RECURSIVE ChainOf(_, _)             \* n, its first member, the first member of that, ...
ChainOf(nodes, n) ==
    LET kids == {m \in 1..Len(nodes) : nodes[m].par = n}
    IN  {n} \cup (IF kids = {} THEN {} ELSE ChainOf(nodes, MinS(kids)))

\* References kept by a node: to its members and parent, and the handles its function was given
RefsOf(p, n) == {m \in 1..Len(p.nodes) : p.nodes[m].par = n} \cup {h[2] : h \in {x \in Rng(p.holds) : x[1] = n}}
                \cup (IF p.nodes[n].par = 0 THEN {} ELSE {p.nodes[n].par})
RECURSIVE RefClosure(_, _)
RefClosure(p, S) == LET S2 == S \cup UNION {RefsOf(p, n) : n \in S} IN IF S2 = S THEN S ELSE RefClosure(p, S2)
\* Nodes the program itself keeps alive for ever: functions holding handles in a circle
Circular(p) == UNION {RefClosure(p, {h[1]}) : h \in {x \in Rng(p.holds) : x[1] > 0 /\ x[1] \in RefClosure(p, {x[2]})}}

Info(p) ==
    LET N     == 1..Len(p.nodes)
        kids  == [n \in N |-> {m \in N : p.nodes[m].par = n}]
        anc   == [n \in N |-> AncOf(p.nodes, n)]
        desc  == [n \in N |-> {m \in N : n \in anc[m]}]
        tasks == {n \in N : p.nodes[n].kind = 0}
        pfg   == {PfGroup(k) : k \in 0..(Len(p.pfors) - 1)}
        pfb   == UNION {{PfGroup(k) + b : b \in 1..(IF p.pfors[k + 1].nb > 11 THEN p.pfors[k + 1].nb + 4 ELSE 15)} : k \in 0..(Len(p.pfors) - 1)}
    IN  [N |-> N, kids |-> kids, anc |-> anc, desc |-> desc, tasks |-> tasks,
         groups |-> N \ tasks,
         leaves |-> [n \in N |-> desc[n] \cap tasks],
         eff    |-> [n \in N |-> EffOf(p.nodes, n)],
         chain  |-> [n \in N |-> ChainOf(p.nodes, n)],
         top    |-> [n \in N |-> CHOOSE a \in anc[n] : p.nodes[a].par = 0],
         prev   |-> [n \in N |-> {m \in N : m < n /\ p.nodes[m].par = p.nodes[n].par /\ p.nodes[n].par # 0}],
         circ   |-> Circular(p),
         pfg    |-> pfg, pfb |-> pfb, ids |-> N \cup pfg \cup pfb,
         W      |-> 0..(Len(p.workers) - 1),
         T      |-> 0..(p.nt - 1)]

IsPf(n) == n >= 1000
PfOf(n) == (n - 1000) \div 64        \* index of the loop, from 0

-----------------------------------------------------------------------------
InitC(p, I) ==
    [ i       |-> 0,
      bad     |-> {},               \* violated guards
      started |-> {}, ended |-> {}, \* tasks
      exT     |-> [n \in I.tasks |-> -1],
      addC    |-> [n \in I.N |-> 0], addR |-> [n \in I.N |-> 0],
      awtd    |-> {}, std |-> {},   \* ever actively waited on / executed single-threaded
      awtBy   |-> {},               \* <<thread, node>> of every active wait
      compl   |-> {},               \* known to be finished by a waiter
      taken   |-> {},               \* handles some worker was seen working on
      stack   |-> [t \in I.T |-> <<>>],  \* calls and functions in progress on each thread
      wk      |-> [t \in I.T |-> -1],    \* worker run by the thread
      wst     |-> [w \in I.W |-> "off"], wcur |-> [w \in I.W |-> 0], wIat |-> [w \in I.W |-> 0],
      wstarts |-> [w \in I.W |-> 0],
      hk      |-> [n \in I.tasks \cup I.pfb |-> 0], hkT |-> [n \in I.tasks \cup I.pfb |-> -1],
      gpre    |-> [n \in I.groups \cup I.pfg |-> 0], gpost |-> [n \in I.groups \cup I.pfg |-> 0],
      hg      |-> [n \in I.ids |-> 0], ht |-> [n \in I.ids |-> 0],
      \* the contexts after the first one: whether all have a second one, who was told of being added, who has one in the middle
      \* and which of those ran, the hook of a worker that its second context has to be told of
      two     |-> FALSE, hi |-> {}, hu |-> {}, mid |-> {}, midPre |-> {}, midPost |-> {},
      wv      |-> [w \in I.W |-> ""],
      dead    |-> {}, fdead |-> {},
      held    |-> Rng(p.holds),
      sched   |-> "off", stops |-> 0,
      saw     |-> [t \in I.T |-> FALSE],
      rest    |-> FALSE,            \* everything is over and every worker sleeps
      pfDone  |-> {}, pfRun |-> {}, pfCall |-> {}, pfRet |-> {},
      over    |-> FALSE,            \* the scheduler is being destroyed
      wui     |-> [t \in I.T |-> -1],   \* wait for idleness that has to notice it: number of stops at its call
      tBusy   |-> 0 ]

-----------------------------------------------------------------------------
(* Derived notions *)
V(prop, what) == <<prop, what>>
If(cond, v) == IF cond THEN {v} ELSE {}

Top(c, t) == IF c.stack[t] = <<>> THEN <<"-", 0>> ELSE c.stack[t][Len(c.stack[t])]
Push(c, t, op, n) == [c EXCEPT !.stack[t] = Append(@, <<op, n>>)]
Pop(c, t) == [c EXCEPT !.stack[t] = IF @ = <<>> THEN <<>> ELSE SubSeq(@, 1, Len(@) - 1)]
Pending(c, t) == Rng(c.stack[t])
PendingOps(I, c, op) == UNION {{x[2] : x \in {y \in Pending(c, t) : y[1] = op}} : t \in I.T}

Ended(I, c, n) == I.leaves[n] \subseteq c.ended
Begun(I, c, n) == I.leaves[n] \cap c.started # {}
Running(I, c, n) == Begun(I, c, n) /\ ~Ended(I, c, n)
InProgress(I, c, n) == \E t \in I.T : \E x \in Pending(c, t) : x[1] = "body" /\ x[2] \in I.leaves[n]
RunningMembers(I, c, q) == {m \in I.kids[q] : Running(I, c, m)}
IsFork(p, n) == p.nodes[n].kind = 2
IsSeq(p, n)  == p.nodes[n].kind = 1
Limited(p, n) == p.nodes[n].kind = 2 /\ p.nodes[n].max > 0
Worker(c, t) == c.wk[t]
WorkerThreads(I, c) == {t \in I.T : c.wk[t] >= 0}
Eligible(p, w, prio) == HasBit(p.workers[w + 1], prio)
\* somebody asked for n, or for a group around it, to be executed
Activated(I, c, n) == \E a \in I.anc[n] : c.addC[a] > 0 \/ a \in c.awtd \/ a \in c.std
\* nobody but the workers can have an influence on n
Covered(I, c, n) == \E a \in I.anc[n] \cup I.desc[n] : a \in c.awtd \/ a \in c.std
\* waiters of n must have been told: every hook of n has run
HooksDone(I, c, n) == IF n \in I.tasks THEN c.hk[n] = 6 ELSE c.gpost[n] = 2

\* Path from an ancestor a (excluded) down to n is open: nothing but a worker is missing for n to run
Open(p, I, c, a, n) ==
    \A m \in I.anc[n] \cap (I.desc[a] \ {a}) :
        LET q == p.nodes[m].par IN
        /\ IsSeq(p, q) => \A s \in I.prev[m] : Ended(I, c, s)
        /\ Limited(p, q) => (Running(I, c, m) \/ Cardinality(RunningMembers(I, c, q)) < p.nodes[q].max)
Ready(p, I, c, l) ==
    /\ l \notin c.started
    /\ \E a \in I.anc[l] : c.addR[a] > 0 /\ Open(p, I, c, a, l)
    /\ ~ \E t \in I.T : \E x \in Pending(c, t) : x[1] = "st" /\ x[2] \in I.anc[l]
IdleFor(p, I, c, l) ==
    {w \in I.W : c.wst[w] = "idle" /\ \A a \in I.anc[l] : Eligible(p, w, I.eff[a])}
LabelsOf(p, I, c, n) ==
    {"C02"} \cup (IF \E a \in I.anc[n] : a # n /\ IsSeq(p, a) THEN {"C04"} ELSE {})
            \cup (IF \E a \in I.anc[n] : a # n /\ IsFork(p, a) THEN {"C05"} ELSE {})
            \cup (IF \E a \in I.anc[n] : a # n /\ Limited(p, a) THEN {"C06"} ELSE {})
            \cup (IF c.stops > 0 THEN {"C10"} ELSE {})

\* Work that is definitely waiting to run or being run by a worker (C11)
Unfinished(I, c) ==
    \/ \E t \in I.T : c.wk[t] >= 0 /\ \E x \in Pending(c, t) : x[1] = "body"
    \/ \E n \in I.N : c.addR[n] > 0 /\ ~Covered(I, c, n) /\ ~Ended(I, c, n)

\* Nodes something legitimately keeps alive (C22)
Roots(I, c) ==
    {h[2] : h \in {x \in c.held : x[1] < 0}}
    \cup {n \in I.N : ~Ended(I, c, n) /\ Activated(I, c, n)}
    \cup {c.wcur[w] : w \in {v \in I.W : c.wst[v] \in {"active", "exec"} /\ c.wcur[v] \in I.N}}
RECURSIVE Reach(_, _, _, _)
Reach(p, I, c, S) ==
    LET S2 == S \cup UNION {
                  (IF p.nodes[n].par # 0 /\ (~Ended(I, c, n) \/ I.anc[n] \cap c.std # {}) THEN {p.nodes[n].par} ELSE {})
                  \cup (IF IsFork(p, n) THEN I.kids[n] ELSE IF IsSeq(p, n) THEN {m \in I.kids[n] : ~Begun(I, c, m)} ELSE {})
                  \cup {h[2] : h \in {x \in c.held : x[1] = n}} : n \in S}
    IN  IF S2 = S THEN S ELSE Reach(p, I, c, S2)

-----------------------------------------------------------------------------
(* Transitions: guards G_x (sets of violations) and effects U_x *)

AddedHooks(c, n) == c.hg[n] = 1 /\ c.ht[n] = 1 /\ (c.two => n \in c.hi /\ n \in c.hu)

\* --- scheduling ---
AddCall(p, I, c, t, n) ==
    <<[Push(c, t, "add", n) EXCEPT !.addC[n] = IF @ = 0 THEN c.i ELSE @], {}>>
AddRet(p, I, c, t, n) ==
    <<[Pop(c, t) EXCEPT !.addR[n] = IF @ = 0 THEN c.i ELSE @],
      UNION {If(p.nodes[n].late = 1 /\ ~AddedHooks(c, m), V("C12", "hooks for being added to a group")) : m \in {x \in I.N : p.nodes[x].par = n}}>>

\* --- start and end of the function of task n on thread t ---
BodyStart(p, I, c, t, n) ==
    LET w       == c.wk[t]
        act     == Activated(I, c, n)
        helping == \E x \in Pending(c, t) :
                      \/ x[1] = "st"  /\ n \in I.desc[x[2]]
                      \/ x[1] = "awt" /\ (n = x[2] \/ \E d \in I.kids[x[2]] : n \in I.chain[d])
        handed  == w >= 0 /\ c.wcur[w] \in I.N /\ c.wst[w] = "exec" /\ n \in I.chain[c.wcur[w]]
        limForks == {q \in I.anc[n] : Limited(p, q)}
        c2      == [Push(c, t, "body", n) EXCEPT !.started = @ \cup {n}, !.exT[n] = t]
        stNodes == {x[2] : x \in {y \in Pending(c, t) : y[1] = "st" /\ n \in I.desc[y[2]]}}
        exclusive(m) == \A a \in I.anc[m] \cup I.desc[m] : c.addC[a] = 0 /\ a \notin c.awtd /\ (a \in c.std => a \in I.desc[m])
    IN <<[c2 EXCEPT !.hk[n] = IF @ = 2 THEN 3 ELSE @],
         If(n \in c.started, V("C01", "executed twice"))
         \cup If(~act, V("C01", "executed although nobody asked for it"))
         \cup UNION {If(IsSeq(p, p.nodes[m].par) /\ \E s \in I.prev[m] : ~Ended(I, c, s), V("C04", "started before the previous item finished"))
                        : m \in {a \in I.anc[n] : p.nodes[a].par # 0}}
         \cup UNION {If(IsSeq(p, p.nodes[m].par) /\ \E s \in I.prev[m] : \E d \in I.desc[s] : ~HooksDone(I, c, d), V("C04", "started before the previous item was over with its hooks"))
                        : m \in {a \in I.anc[n] : p.nodes[a].par # 0}}
         \cup UNION {If(Cardinality(RunningMembers(I, c2, q)) > p.nodes[q].max, V("C06", "too many members at the same time")) : q \in limForks}
         \cup If(w >= 0 /\ ~handed /\ ~helping /\ ~Eligible(p, w, I.eff[n]), V("C09", "run by a worker that isn't eligible"))
         \cup If(w >= 0 /\ ~handed /\ ~helping, V("C13", "run without being announced by the worker"))
         \cup If(w < 0 /\ ~helping, V("C09", "run by a thread that isn't a worker"))
         \cup If(w >= 0 /\ c.sched = "off", V("C10", "executed by a worker after the stop"))
         \cup If(c.hk[n] # 2 \/ c.hkT[n] # t, V("C12", "function without its pre-execute hooks"))
         \cup UNION {If(c.gpre[g] < 2,
                        IF IsFork(p, g) /\ g \in c.awtd THEN V("K12", "fork actively waited on: member before the pre-execute hook")
                        ELSE V("C12", "member before the pre-execute hook of its group"))
                        : g \in {a \in I.anc[n] : a # n /\ (c.addC[a] > 0 \/ a \in c.std \/ \E b \in I.anc[a] : b # a /\ Activated(I, c, b))}}
         \cup UNION {If(c.gpost[g] > 0, V("C12", "member after the post-execute hook of its group"))
                        \cup If(c.gpost[g] > 0, V("C05", "member starts after the group was completed")) : g \in {a \in I.anc[n] : a # n}}
         \cup If(I.anc[n] \cap c.compl # {}, V("C03", "starts after a waiter was told it was finished"))
         \cup UNION {If(exclusive(m) /\ \E l \in I.leaves[m] : l < n /\ l \notin c.ended /\ l \in I.leaves[m], V("C26", "not in order")) : m \in stNodes}
         \cup If(n \in c.dead \/ n \in c.fdead, V("C22", "executed after its destruction"))>>

BodyArgs(p, I, c, t, n, ok) == <<c, If(ok # 1, V("C01", "function called with wrong arguments"))>>

BodyEnd(p, I, c, t, n, us) ==
    <<[Pop(c, t) EXCEPT !.ended = @ \cup {n}, !.hk[n] = IF @ = 3 THEN 4 ELSE @, !.tBusy = us],
      If(c.exT[n] # t \/ n \in c.ended, V("C01", "end of a function that didn't run here"))
      \cup If(n \in c.dead \/ n \in c.fdead, V("C22", "destroyed while executing"))>>

\* --- waiting ---
WaitCall(p, I, c, t, n) == <<Push(c, t, "wait", n), {}>>
WaitRet(p, I, c, t, n) ==
    <<[Pop(c, t) EXCEPT !.compl = @ \cup {n}],
      If(~Ended(I, c, n), V("C03", "wait returned before the end"))
      \cup If(~Ended(I, c, n) /\ IsFork(p, n), V("C05", "waiter released before the end"))
      \cup If(~Ended(I, c, n) /\ IsSeq(p, n), V("C04", "waiter released before the end of the sequence"))
      \cup If(~Ended(I, c, n) /\ \E a \in I.desc[n] : a \in c.std, V("C26", "waiter released before the end"))
      \cup If(~HooksDone(I, c, n), V("C12", "waiter released before the post-execute hooks"))>>
AwaitCall(p, I, c, t, n) == <<[Push(c, t, "awt", n) EXCEPT !.awtd = @ \cup {n}, !.awtBy = @ \cup {<<t, n>>}], {}>>
AwaitRet(p, I, c, t, n) ==
    LET related == I.anc[n] \cup I.desc[n]
        alone  == /\ \A a \in related : c.addC[a] = 0 /\ a \notin c.std
                  /\ {x \in c.awtBy : x[2] \in related} = {<<t, n>>}
        direct == IF n \in I.tasks THEN {n} ELSE {m \in I.kids[n] : m \in I.tasks}
    IN <<[Pop(c, t) EXCEPT !.compl = @ \cup {n}],
         If(~Ended(I, c, n), V("C07", "active wait returned before the end"))
         \cup If(~Ended(I, c, n) /\ IsFork(p, n), V("C05", "waiter released before the end"))
         \cup If(~Ended(I, c, n), V("C03", "wait returned before the end"))
         \cup If(alone /\ ~Limited(p, n) /\ \E m \in direct : c.exT[m] # t, V("C07", "not run by the thread that actively waits"))
         \cup If(~HooksDone(I, c, n), V("C12", "waiter released before the post-execute hooks"))>>
\* an item of a sequence is finished once a later one has begun
Passed(p, I, c, n) == \E a \in I.anc[n] : /\ p.nodes[a].par # 0 /\ IsSeq(p, p.nodes[a].par)
                                          /\ \E m \in I.kids[p.nodes[a].par] : m > a /\ Begun(I, c, m)
DoneCall(p, I, c, t, n) == <<Push(c, t, IF n \in c.compl \/ Passed(p, I, c, n) THEN "done!" ELSE "done", n), {}>>
DoneRet(p, I, c, t, n, b) ==
    LET must == Top(c, t)[1] = "done!" IN
    <<[Pop(c, t) EXCEPT !.compl = IF b = 1 THEN @ \cup {n} ELSE @],
      If(b = 1 /\ ~Ended(I, c, n), V("C03", "reported done before the end"))
      \cup If(b = 1 /\ ~Ended(I, c, n) /\ IsFork(p, n), V("C05", "reported done before the end"))
      \cup If(b = 1 /\ ~Ended(I, c, n) /\ IsSeq(p, n), V("C04", "reported done before the end"))
      \cup If(b = 1 /\ ~Ended(I, c, n) /\ \E a \in I.anc[n] \cup I.desc[n] : a \in c.std, V("C26", "reported done before the end"))
      \cup If(b = 0 /\ must, V("C03", "not reported done although a waiter was told so"))
      \cup If(b = 0 /\ must /\ \E x \in c.awtBy : x[2] = n /\ <<"awt", n>> \notin Pending(c, x[1]), V("C07", "active wait returned before the end"))
      \cup If(b = 0 /\ must /\ Passed(p, I, c, n), V("C04", "not reported done although a later item of the sequence has begun"))
      \cup If(b = 0 /\ must /\ n \in c.std, V("C26", "not reported done afterwards"))>>
Result(p, I, c, t, n, v) ==
    <<c, If(v # 1000 + n, V("C03", "wrong result"))>>

\* --- single-threaded execution ---
StCall(p, I, c, t, n) ==
    LET free == \A a \in I.anc[n] \cup I.desc[n] : c.addC[a] = 0 /\ a \notin c.awtd /\ a \notin c.std IN
    <<[Push(Push(c, t, IF free THEN "st!" ELSE "st?", n), t, "st", n) EXCEPT !.std = @ \cup {n}], {}>>
StRet(p, I, c, t, n) ==
    LET c1 == Pop(c, t)
        free == Top(c1, t)[1] = "st!" /\ \A a \in I.anc[n] \cup I.desc[n] : c.addC[a] = 0 /\ a \notin c.awtd
    IN  <<[Pop(c1, t) EXCEPT !.compl = IF free THEN @ \cup {n} ELSE @],
          If(free /\ ~Ended(I, c, n), V("C26", "returned before every member was run"))
          \cup If(free /\ Ended(I, c, n) /\ \E l \in I.leaves[n] : c.exT[l] # t, V("C26", "not run in place"))
          \cup If(free /\ ~HooksDone(I, c, n), V("C12", "hooks missing"))>>

\* --- idleness ---
IdleCall(p, I, c, t) == <<[Push(c, t, "idle", IF c.rest THEN 1 ELSE 0) EXCEPT !.saw[t] = ~Unfinished(I, c)], {}>>
IdleRet(p, I, c, t, b) ==
    <<Pop(c, t),
      If(b = 1 /\ ~c.saw[t] /\ Unfinished(I, c), V("C11", "idle reported while a task was pending"))
      \cup If(b = 0 /\ Top(c, t)[2] = 1, V("C11", "idle not reported at rest"))>>
\* strict: time only passes when nothing else can happen
WuiCall(p, I, c, t, us, strict) ==
    <<[Push(c, t, IF c.rest THEN "wui!" ELSE "wui", us) EXCEPT
         !.saw[t] = ~Unfinished(I, c),
         !.wui[t] = IF strict = 1 /\ c.sched = "on" /\ PendingOps(I, c, "stop") = {} THEN c.stops ELSE -1], {}>>
WuiRet(p, I, c, t, max, us) ==
    LET from == Top(c, t)[2]
        since == IF c.tBusy > from THEN c.tBusy ELSE from IN
    <<Pop(c, t),
      If(us - from < max /\ ~c.saw[t] /\ Unfinished(I, c), V("C11", "wait for idleness returned while a task was pending"))
      \cup If(us - from >= max /\ Top(c, t)[1] = "wui!", V("C11", "wait for idleness didn't return at rest"))
      \cup If(us - from >= max /\ ~Unfinished(I, c) /\ c.tBusy > 0 /\ us - since > 20000 /\ c.wui[t] = c.stops, V("C11", "wait for idleness didn't return once idle"))>>

\* --- scheduler ---
StartCall(p, I, c, t) == <<[Push(c, t, "start", 0) EXCEPT !.sched = "on", !.wst = [w \in I.W |-> "off"], !.wstarts = [w \in I.W |-> 0]], {}>>
StartRet(p, I, c, t) == <<Pop(c, t), {}>>
StopCall(p, I, c, t) == <<[Push(c, t, "stop", 0) EXCEPT !.stops = @ + 1], {}>>
StopRet(p, I, c, t, live, expect) ==
    LET was == c.sched IN
    <<[Pop(c, t) EXCEPT !.sched = "off"],
      UNION {If(was # "off" /\ c.wst[w] # "stopped", V(q, "stop returned before the end of a worker")) : w \in I.W, q \in {"C10", "C13"}}
      \cup If(live > expect, V("C10", "a worker thread is still alive after the stop"))>>
WorkersCount(p, I, c, t, prio, v) ==
    <<c, If(v # (IF prio = 9 THEN Len(p.workers) ELSE Cardinality({w \in I.W : Eligible(p, w, prio)})), V("C09", "wrong number of workers"))>>

\* --- workers ---
WorkerStart(p, I, c, t, w) ==
    <<[c EXCEPT !.wk[t] = w, !.wst[w] = "start", !.wstarts[w] = @ + 1],
      If(c.wst[w] # "off" \/ c.wk[t] # -1 \/ c.wstarts[w] # 0, V("C13", "start hook"))
      \cup If(c.sched = "off", V("C10", "worker started while stopped"))>>
WorkerIdle(p, I, c, t, w) ==
    <<[c EXCEPT !.wst[w] = "idle", !.wIat[w] = c.i, !.wcur[w] = 0],
      If(c.wk[t] # w \/ c.wst[w] \notin {"start", "active"}, V("C13", "idle hook"))
      \cup If(c.sched = "off", V("C10", "worker at work after the stop"))>>
WorkerActive(p, I, c, t, w) ==
    <<[c EXCEPT !.wst[w] = "active"],
      If(c.wk[t] # w \/ c.wst[w] # "idle", V("C13", "active hook"))
      \cup If(c.sched = "off", V("C10", "worker at work after the stop"))>>
\* Handles that were in the queues before the worker started to look for work
Better(p, I, c, w, n) ==
    {m \in I.N : /\ m # n /\ c.addR[m] > 0 /\ c.addR[m] < c.wIat[w]
                 /\ m \notin c.taken /\ ~Begun(I, c, m) /\ ~Covered(I, c, m)
                 /\ p.nodes[m].par = 0
                 /\ Eligible(p, w, I.eff[m])
                 /\ \/ I.eff[m] < I.eff[n]
                    \/ I.eff[m] = I.eff[n] /\ p.nodes[n].par = 0 /\ c.addC[n] > 0 /\ c.addR[m] < c.addC[n]}
\* Members of an executing fork waiting in a queue, in the order of the fork (the executing thread is at its first member)
BetterSib(p, I, c, w, n) ==
    LET q == p.nodes[n].par IN
    IF q = 0 THEN {}
    ELSE IF ~IsFork(p, q) \/ p.nodes[q].max > 0 \/ Covered(I, c, q) \/ \E d \in I.desc[q] \ {q} : c.addC[d] > 0 THEN {}
    ELSE {m \in I.kids[q] : /\ m < n /\ m # MinS(I.kids[q]) /\ m \notin c.taken /\ ~Begun(I, c, m)
                            /\ I.eff[m] = I.eff[n]}
WorkerPre(p, I, c, t, w, n) ==
    LET others == {v \in I.W \ {w} : c.wst[v] \in {"idle", "active"}}
        B == IF IsPf(n) THEN {} ELSE Better(p, I, c, w, n)
        S == IF IsPf(n) THEN {} ELSE BetterSib(p, I, c, w, n)
        holders(X) == {v \in others : \E m \in X : Eligible(p, v, I.eff[m])}
        prio == IF IsPf(n) THEN p.pfors[PfOf(n) + 1].prio ELSE I.eff[n]
    IN <<[c EXCEPT !.wst[w] = "exec", !.wcur[w] = n, !.taken = @ \cup {n}],
         If(c.wk[t] # w \/ c.wst[w] # "active" \/ n \notin I.ids, V("C13", "pre-execute hook"))
         \cup If(~Eligible(p, w, prio), V("C09", "worker not eligible for the priority of the task"))
         \cup If(c.sched = "off", V("C10", "worker at work after the stop"))
         \cup If(n \in c.taken, V("C01", "taken twice"))
         \cup If(~IsPf(n) /\ (n \in I.N) /\ ~Activated(I, c, n), V("C01", "taken although nobody asked for it"))
         \cup If(Cardinality(B) > Cardinality(holders(B)), V("C08", "a task that goes first was left in the queue"))
         \cup If(Cardinality(S) > Cardinality(holders(S)), V("C08", "a member that goes first was left in the queue"))
         \cup If(n \in c.dead, V("C22", "taken after its destruction"))>>
WorkerPost(p, I, c, t, w, n) ==
    <<[c EXCEPT !.wst[w] = "active", !.wcur[w] = n],
      If(c.wk[t] # w \/ c.wst[w] # "exec" \/ c.wcur[w] # n, V("C13", "post-execute hook"))
      \cup If(n \in I.tasks /\ c.wst[w] = "exec" /\ (n \notin c.ended \/ c.exT[n] # t), V("C13", "the task announced wasn't executed"))
      \cup If(n \in c.dead, V("C22", "handle of a destroyed task"))>>
WorkerStop(p, I, c, t, w) ==
    <<[c EXCEPT !.wst[w] = "stopped"],
      If(c.wk[t] # w \/ c.wst[w] \notin {"active", "start"}, V("C13", "stop hook"))
      \cup If(c.sched = "off", V("C13", "stop hook after the stop returned"))>>

\* The second context of a worker is told everything the first one is, right after it
WFirst(c, w, k, res) ==
    <<[res[1] EXCEPT !.wv[w] = IF c.two THEN k ELSE ""], res[2] \cup If(c.wv[w] # "", V("C13", "a context of the worker left out"))>>
WSecond(p, I, c, t, w, k, n) ==
    <<[c EXCEPT !.wv[w] = ""], If(c.wv[w] # k \/ c.wk[t] # w \/ (n # 0 /\ c.wcur[w] # n), V("C13", "hook of the second context of the worker"))>>

\* --- hooks of tasks (k: 1 = A pre, 2 = B pre, 5 = A post, 6 = B post) ---
TaskHook(p, I, c, t, n, k) ==
    LET from == CASE k = 1 -> {0} [] k = 2 -> {1} [] k = 5 -> (IF IsPf(n) THEN {2} ELSE {4}) [] OTHER -> {5}
    IN <<[c EXCEPT !.hk[n] = k, !.hkT[n] = t],
         If(c.hk[n] \notin from \/ (k # 1 /\ c.hkT[n] # t), V("C12", "hook of a task"))
         \cup If(n \in c.mid /\ k = 2 /\ n \notin c.midPre, V("C12", "pre-execute hook of a context left out"))
         \cup If(n \in c.mid /\ k = 6 /\ n \notin c.midPost, V("C12", "post-execute hook of a context left out"))
         \cup If(IsPf(n) /\ c.hk[n] \notin from, V("C01", "batch executed twice"))
         \cup If(n \in c.dead, V("C22", "hook after the destruction"))>>
\* the context in the middle of three, between the first and the last
MidTask(p, I, c, t, n, k) ==
    <<IF k = 1 THEN [c EXCEPT !.midPre = @ \cup {n}] ELSE [c EXCEPT !.midPost = @ \cup {n}],
      If(c.hk[n] # (IF k = 1 THEN 1 ELSE 5) \/ c.hkT[n] # t \/ n \in (IF k = 1 THEN c.midPre ELSE c.midPost), V("C12", "hook of a task"))>>
MidGroup(p, I, c, t, n, k) ==
    <<IF k = 1 THEN [c EXCEPT !.midPre = @ \cup {n}] ELSE [c EXCEPT !.midPost = @ \cup {n}],
      If((IF k = 1 THEN c.gpre[n] ELSE c.gpost[n]) # 1 \/ n \in (IF k = 1 THEN c.midPre ELSE c.midPost), V("C12", "hook of a group"))>>
GroupPre(p, I, c, t, n, k) ==
    LET late == IF IsPf(n) THEN \E x \in c.pfDone \cup c.pfRun : x[1] = PfOf(n)
                ELSE Begun(I, c, n)
        awaited == IsPf(n) \/ (IsFork(p, n) /\ n \in c.awtd)
        over == c.gpost[n] > 0
    IN <<[c EXCEPT !.gpre[n] = k],
         If(c.gpre[n] # k - 1, V("C12", "pre-execute hook of a group"))
         \cup If(n \in c.mid /\ k = 2 /\ n \notin c.midPre, V("C12", "pre-execute hook of a context left out"))
         \cup If((late \/ over), IF awaited THEN V("K12", "fork actively waited on: late pre-execute hook") ELSE V("C12", "late pre-execute hook of a group"))
         \cup If(n \in c.dead, V("C22", "hook after the destruction"))>>
GroupPost(p, I, c, t, n, k) ==
    LET all == IF IsPf(n) THEN ~ \E x \in c.pfRun : x[1] = PfOf(n) ELSE Ended(I, c, n)
        over == IF IsPf(n) THEN \A b \in 1..p.pfors[PfOf(n) + 1].nb : c.hk[n + b] = 6 ELSE \A m \in I.kids[n] : HooksDone(I, c, m)
        inner == IF IsPf(n) THEN TRUE ELSE \A m \in I.kids[n] \cap I.groups : c.gpost[m] = 2
    IN <<[c EXCEPT !.gpost[n] = k],
         If(c.gpost[n] # k - 1, V("C12", "post-execute hook of a group"))
         \cup If(n \in c.mid /\ k = 2 /\ n \notin c.midPost, V("C12", "post-execute hook of a context left out"))
         \cup If(c.gpost[n] # k - 1 /\ ~IsPf(n), V("C05", "completed twice"))
         \cup If(~all, V("C12", "post-execute hook of a group before the end of its members"))
         \cup If(~all, V(IF ~IsPf(n) /\ IsSeq(p, n) THEN "C04" ELSE "C05", "group completed before the end of its members"))
         \cup If(~over, V("C12", "post-execute hook of a group before those of its members"))
         \cup If(~inner, V(IF ~IsPf(n) /\ IsSeq(p, n) THEN "C04" ELSE "C05", "group completed before a nested group"))
         \cup If(k = 1 /\ c.gpre[n] # 2, IF IsPf(n) \/ (IsFork(p, n) /\ n \in c.awtd) THEN V("K12", "fork actively waited on: no pre-execute hook before the post-execute hook")
                                           ELSE V("C12", "post-execute hook without pre-execute hook"))
         \cup If(n \in c.dead, V("C22", "hook after the destruction"))>>
AddedHook(p, I, c, t, n, g) ==
    <<[c EXCEPT !.hg[n] = @ + 1],
      If(c.hg[n] # 0 \/ (~IsPf(n) /\ p.nodes[n].par # g), V("C12", "hook for being added to a group"))>>
TaskAddedHook(p, I, c, t, g, n) ==
    <<[c EXCEPT !.ht[n] = @ + 1],
      If(c.ht[n] # 0 \/ (~IsPf(n) /\ p.nodes[n].par # g), V("C12", "hook for adding to a group"))>>
AddedToo(p, I, c, t, n, g) ==
    <<[c EXCEPT !.hi = @ \cup {n}],
      If(c.hg[n] # 1 \/ n \in c.hi \/ (~IsPf(n) /\ p.nodes[n].par # g), V("C12", "hook for being added to a group"))>>
TaskAddedToo(p, I, c, t, g, n) ==
    <<[c EXCEPT !.hu = @ \cup {n}],
      If(c.ht[n] # 1 \/ n \in c.hu \/ (~IsPf(n) /\ p.nodes[n].par # g), V("C12", "hook for adding to a group"))>>
Built(p, I, c) ==
    <<c, UNION {If(p.nodes[n].par # 0 /\ p.nodes[p.nodes[n].par].late = 0 /\ ~AddedHooks(c, n), V("C12", "hooks for being added to a group")) : n \in I.N}>>

\* --- lifetime ---
Destroyed(p, I, c, t, n) ==
    LET needed == /\ n \in I.N
                  /\ \/ \E h \in c.held : h[2] = n /\ (h[1] < 0 \/ h[1] \notin c.fdead)
                     \/ ~c.over /\ Activated(I, c, n) /\ ~Ended(I, c, n)
                     \/ InProgress(I, c, n)
    IN <<[c EXCEPT !.dead = @ \cup {n}],
         If(n \in c.dead, V("C22", "destroyed twice"))
         \cup If(needed, V("C22", "destroyed while needed"))>>
FuncDestroyed(p, I, c, t, n) ==
    <<[c EXCEPT !.fdead = @ \cup {n}],
      If(n \in c.fdead, V("C22", "function destroyed twice"))
      \cup If((~c.over /\ Activated(I, c, n) /\ n \notin c.ended) \/ InProgress(I, c, n) \/ \E h \in c.held : h[2] = n /\ (h[1] < 0 \/ h[1] \notin c.fdead), V("C22", "function destroyed while needed"))>>
Dropped(p, I, c, t, n, holder) == <<[c EXCEPT !.held = @ \ {<<holder, n>>}], {}>>
ClientDone(p, I, c, t, i) == <<[c EXCEPT !.held = {h \in @ : h[1] # -(i + 1)}], {}>>

\* --- parallel loops ---
PforCall(p, I, c, t, k) == <<[Push(c, t, "pfor", k) EXCEPT !.pfCall = @ \cup {k}], {}>>
IterStart(p, I, c, t, k, b, i) ==
    LET d == p.pfors[k + 1]
        \* a worker runs a batch it was handed, or helps as the starter of the loop
        okT == (\E x \in Pending(c, t) : x = <<"pfor", k>>)
               \/ (c.wk[t] >= 0 /\ (PfOf(c.wcur[c.wk[t]]) = k /\ IsPf(c.wcur[c.wk[t]])))
               \/ (c.wk[t] >= 0 /\ Eligible(p, c.wk[t], d.prio))
    IN <<[c EXCEPT !.pfRun = @ \cup {<<k, i, b, t>>}],
         If(k \notin c.pfCall \/ k \in c.pfRet, V("C14", "call outside of the loop"))
         \cup If(i < d.first \/ i >= d.last, V("C14", "index out of range"))
         \cup If(\E x \in c.pfDone \cup c.pfRun : x[1] = k /\ x[2] = i, V("C14", "index visited twice"))
         \cup If(b # -1 /\ (b < 0 \/ b >= d.nb), V("C14", "batch number out of range"))
         \cup If(b # -1 /\ \E x \in c.pfRun : x[1] = k /\ x[3] = b /\ x[4] # t, V("C14", "batch number used by two threads at once"))
         \cup If(~okT, V("C09", "loop run by a thread that isn't eligible"))
         \cup If(c.wk[t] >= 0 /\ c.sched = "off", V("C10", "executed by a worker after the stop"))>>
IterEnd(p, I, c, t, k, b, i) ==
    <<[c EXCEPT !.pfRun = @ \ {<<k, i, b, t>>}, !.pfDone = @ \cup {<<k, i>>}],
      If(<<k, i, b, t>> \notin c.pfRun, V("C14", "end of an unknown call"))>>
PforRet(p, I, c, t, k) ==
    LET d == p.pfors[k + 1] IN
    <<[Pop(c, t) EXCEPT !.pfRet = @ \cup {k}],
      If(\E x \in c.pfRun : x[1] = k, V("C14", "returned before the end of every call"))
      \cup If(\E i \in d.first..(d.last - 1) : <<k, i>> \notin c.pfDone, V("C14", "index never visited"))
      \cup If(\E x \in c.pfRun : x[1] = k, V("C05", "loop returned before the end of every call"))
      \cup If(d.first < d.last /\ c.gpost[PfGroup(k)] # 2, V("C12", "loop returned before the post-execute hooks"))>>

\* --- gates of the harness ---
GateBlock(p, I, c, t, g) == <<Push(c, t, "gate", g), {}>>
GatePass(p, I, c, t, g) == <<Pop(c, t), {}>>

\* --- rest: nothing can move any more, no timer is pending ---
Quiescent(p, I, c, t) ==
    LET tops == {<<u, Top(c, u)>> : u \in I.T \ {t}}
        on == c.sched = "on"
        busy == \E u \in I.T : c.wk[u] >= 0 /\ c.stack[u] # <<>>
    IN <<[c EXCEPT !.rest = on /\ (\A w \in I.W : c.wst[w] = "idle") /\ \A n \in I.N : Activated(I, c, n) => Ended(I, c, n)],
         \* released work, an idle worker, and yet it doesn't run
         (IF on THEN UNION {UNION {{V(q, "released work stays in the queue while a worker sleeps") : q \in LabelsOf(p, I, c, l)}
                            : l \in {x \in I.tasks : Ready(p, I, c, x) /\ IdleFor(p, I, c, x) # {}}}} ELSE {})
         \* waiters
         \cup UNION {LET op == x[2][1]  n == x[2][2] IN
                CASE op = "wait" -> {V(q, "a waiter stays blocked on something finished") : q \in IF Ended(I, c, n) THEN {"C02", IF IsFork(p, n) THEN "C05" ELSE IF IsSeq(p, n) THEN "C04" ELSE "C02"} \cup (IF n \in c.std THEN {"C26"} ELSE {}) ELSE {}}
                  [] op = "awt"  -> {V(q, "an active waiter is stuck") :
                                        q \in IF \/ Ended(I, c, n)
                                                 \/ n \in I.tasks /\ n \notin c.started
                                                 \/ IsFork(p, n) /\ ~Limited(p, n) /\ \E m \in I.kids[n] : m \in I.tasks /\ m \notin c.started
                                              THEN {"C02", "C07"} ELSE {}}
                  [] op = "st"   -> {V("C26", "single-threaded execution is stuck")}
                  [] op \in {"add", "done", "done!", "idle", "start"} -> {V("C02", "a call is stuck")} \cup (IF op = "start" THEN {V("C10", "start is stuck")} ELSE {}) \cup (IF op = "idle" THEN {V("C11", "a query is stuck")} ELSE {})
                  [] op \in {"wui", "wui!"} -> {V("C11", "wait for idleness is stuck")}
                  [] op = "stop" -> IF busy THEN {} ELSE {V("C10", "stop is stuck")}
                  [] op = "pfor" -> IF \/ \E y \in c.pfRun : y[1] = n
                                       \/ p.pfors[n + 1].aw = 0 /\ ~(on /\ \E w \in I.W : c.wst[w] = "idle" /\ Eligible(p, w, p.pfors[n + 1].prio))
                                    THEN {} ELSE {V("C14", "a loop is stuck"), V("C02", "a loop is stuck")}
                  [] OTHER -> {} : x \in tops}
         \* a finished group has been completed
         \cup UNION {If(Ended(I, c, g) /\ c.gpost[g] # 2, V(IF IsSeq(p, g) THEN "C04" ELSE "C05", "finished group never completed"))
                     \cup If(Ended(I, c, g) /\ c.gpost[g] # 2, V("C12", "post-execute hook missing")) : g \in I.groups}
         \* workers at rest
         \cup If(on /\ ~busy /\ ~(\E u \in I.T : \E x \in Pending(c, u) : x[1] \in {"start", "stop"}) /\ \E w \in I.W : c.wst[w] # "idle", V("C13", "a worker at rest isn't idle"))
         \* nothing that is over is kept alive
         \cup (IF on /\ ~busy
               THEN LET live == Reach(p, I, c, Roots(I, c)) IN
                    UNION {If(Ended(I, c, n) /\ Activated(I, c, n) /\ n \notin live /\ n \notin I.circ /\ (n \notin c.dead \/ (n \in I.tasks /\ n \notin c.fdead)), V("C22", "kept alive although finished and unreferenced")) : n \in I.N}
               ELSE {})>>

\* --- end of the run: the scheduler is destroyed, every handle is gone ---
Shutdown(p, I, c, t) == <<[c EXCEPT !.held = {}, !.stops = @ + 1, !.over = TRUE], {}>>
Finished(p, I, c, t, live) ==
    <<[c EXCEPT !.sched = "off"],
      If(live # 0, V("C10", "a thread outlives the scheduler"))
      \cup UNION {If(c.wv[w] # "", V("C13", "a context of the worker left out")) : w \in I.W}
      \cup UNION {If(c.sched = "on" /\ c.wst[w] # "stopped", V(q, "a worker outlives the scheduler")) : w \in I.W, q \in {"C10", "C13"}}
      \cup UNION {If((Ended(I, c, I.top[n]) \/ (n \in I.tasks /\ p.nodes[n].par = 0)) /\ n \notin c.dead, V("C22", "never destroyed")) : n \in I.N \ I.circ}
      \cup UNION {If((n \in c.ended /\ Ended(I, c, I.top[n])) /\ n \notin c.fdead, V("C22", "function never destroyed")) : n \in I.tasks \ I.circ}
      \cup UNION {If(c.gpre[PfGroup(k)] > 0 /\ k \in c.pfRet /\ PfGroup(k) \notin c.dead, V("C22", "group of a loop never destroyed")) : k \in 0..(Len(p.pfors) - 1)}>>

Fatal(c, what) == <<c, {V("FATAL", what)}>>

-----------------------------------------------------------------------------
(* Dispatch *)
Raw(p, I, c, e) ==
    LET k == e[1]  t == e[2] IN
    CASE k = "ac" -> AddCall(p, I, c, t, e[3])
      [] k = "ar" -> AddRet(p, I, c, t, e[3])
      [] k = "bs" -> BodyStart(p, I, c, t, e[3])
      [] k = "ba" -> BodyArgs(p, I, c, t, e[3], e[4])
      [] k = "be" -> BodyEnd(p, I, c, t, e[3], IF Len(e) > 3 THEN e[4] ELSE 0)
      [] k = "wc" -> WaitCall(p, I, c, t, e[3])
      [] k = "wr" -> WaitRet(p, I, c, t, e[3])
      [] k = "Ac" -> AwaitCall(p, I, c, t, e[3])
      [] k = "Ar" -> AwaitRet(p, I, c, t, e[3])
      [] k = "dq" -> DoneCall(p, I, c, t, e[3])
      [] k = "dr" -> DoneRet(p, I, c, t, e[3], e[4])
      [] k = "rq" -> <<c, {}>>
      [] k = "rr" -> Result(p, I, c, t, e[3], e[4])
      [] k = "sc" -> StCall(p, I, c, t, e[3])
      [] k = "sr" -> StRet(p, I, c, t, e[3])
      [] k = "is" -> IdleCall(p, I, c, t)
      [] k = "ie" -> IdleRet(p, I, c, t, e[3])
      [] k = "us" -> WuiCall(p, I, c, t, e[4], e[5])
      [] k = "ue" -> WuiRet(p, I, c, t, e[3], e[4])
      [] k = "Sc" -> StartCall(p, I, c, t)
      [] k = "Sr" -> StartRet(p, I, c, t)
      [] k = "Tc" -> StopCall(p, I, c, t)
      [] k = "Tr" -> StopRet(p, I, c, t, e[3], p.nclients - 1)
      [] k = "wn" -> WorkersCount(p, I, c, t, e[3], e[4])
      [] k = "wS" -> WFirst(c, e[3], "vS", WorkerStart(p, I, c, t, e[3]))
      [] k = "wI" -> WFirst(c, e[3], "vI", WorkerIdle(p, I, c, t, e[3]))
      [] k = "wA" -> WFirst(c, e[3], "vA", WorkerActive(p, I, c, t, e[3]))
      [] k = "w1" -> WFirst(c, e[3], "v1", WorkerPre(p, I, c, t, e[3], e[4]))
      [] k = "w2" -> WFirst(c, e[3], "v2", WorkerPost(p, I, c, t, e[3], e[4]))
      [] k = "wT" -> WFirst(c, e[3], "vT", WorkerStop(p, I, c, t, e[3]))
      [] k = "hA" -> TaskHook(p, I, c, t, e[3], 1)
      [] k = "hB" -> TaskHook(p, I, c, t, e[3], 2)
      [] k = "hY" -> TaskHook(p, I, c, t, e[3], 5)
      [] k = "hZ" -> TaskHook(p, I, c, t, e[3], 6)
      [] k = "gA" -> GroupPre(p, I, c, t, e[3], 1)
      [] k = "gB" -> GroupPre(p, I, c, t, e[3], 2)
      [] k = "gY" -> GroupPost(p, I, c, t, e[3], 1)
      [] k = "gZ" -> GroupPost(p, I, c, t, e[3], 2)
      [] k = "hg" -> AddedHook(p, I, c, t, e[3], e[4])
      [] k = "ht" -> TaskAddedHook(p, I, c, t, e[3], e[4])
      [] k \in {"vS", "vI", "vA", "vT"} -> WSecond(p, I, c, t, e[3], k, 0)
      [] k \in {"v1", "v2"} -> WSecond(p, I, c, t, e[3], k, e[4])
      [] k = "hC" -> MidTask(p, I, c, t, e[3], 1)
      [] k = "hX" -> MidTask(p, I, c, t, e[3], 2)
      [] k = "gC" -> MidGroup(p, I, c, t, e[3], 1)
      [] k = "gX" -> MidGroup(p, I, c, t, e[3], 2)
      [] k = "hi" -> AddedToo(p, I, c, t, e[3], e[4])
      [] k = "hu" -> TaskAddedToo(p, I, c, t, e[3], e[4])
      [] k = "kC" -> <<[c EXCEPT !.mid = @ \cup {e[3]}], {}>>
      [] k = "kx" -> <<[c EXCEPT !.two = TRUE], {}>>
      [] k = "B"  -> Built(p, I, c)
      [] k = "D"  -> Destroyed(p, I, c, t, e[3])
      [] k = "F"  -> FuncDestroyed(p, I, c, t, e[3])
      [] k = "d"  -> Dropped(p, I, c, t, e[3], e[4])
      [] k = "cd" -> ClientDone(p, I, c, t, e[3])
      [] k = "pc" -> PforCall(p, I, c, t, e[3])
      [] k = "it" -> IterStart(p, I, c, t, e[3], e[4], e[5])
      [] k = "iz" -> IterEnd(p, I, c, t, e[3], e[4], e[5])
      [] k = "pr" -> PforRet(p, I, c, t, e[3])
      [] k = "pv" -> <<c, If(e[4] # 1, V("C14", "the elements of the container aren't what the loop made of them"))>>
      [] k = "tx" -> <<c, {V("C12", "the context isn't of the type that was asked for")}>>
      [] k = "gb" -> GateBlock(p, I, c, t, e[3])
      [] k = "gp" -> GatePass(p, I, c, t, e[3])
      [] k = "go" -> <<c, {}>>
      [] k = "Q"  -> Quiescent(p, I, c, t)
      [] k = "X"  -> Shutdown(p, I, c, t)
      [] k = "E"  -> Finished(p, I, c, t, e[3])
      [] k \in {"RACE", "UAF"} -> <<c, {V(k, e[3])}>>
      [] OTHER -> Fatal(c, k)

NodeArgs(e) ==
    CASE e[1] \in {"ac", "ar", "bs", "be", "ba", "wc", "wr", "Ac", "Ar", "dq", "dr", "rr", "sc", "sr", "d",
                   "hA", "hB", "hY", "hZ", "gA", "gB", "gY", "gZ", "D", "F", "hC", "hX", "gC", "gX"} -> {e[3]}
      [] e[1] \in {"w1", "w2", "v1", "v2"} -> {e[4]}
      [] e[1] \in {"hg", "ht", "hi", "hu"} -> {e[3], e[4]}
      [] OTHER -> {}

Apply(p, I, c0, e) ==
    LET c1 == [c0 EXCEPT !.i = @ + 1]
        r  == IF NodeArgs(e) \subseteq I.ids THEN Raw(p, I, c1, e) ELSE Fatal(c1, "unknown task")
        c2 == r[1]
        \* what the queries in progress see
        querying == \E u \in I.T : Top(c2, u)[1] \in {"idle", "wui", "wui!"}
        c3 == IF querying /\ ~Unfinished(I, c2) THEN [c2 EXCEPT !.saw = [u \in I.T |-> TRUE]] ELSE c2
    IN [c3 EXCEPT !.bad = r[2], !.rest = @ /\ e[1] = "Q"]
=============================================================================
