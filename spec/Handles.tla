------------------------------ MODULE Handles -------------------------------
(***************************************************************************)
(* Tasks and those who refer to them.  A slot holds a handle, which refers *)
(* to a task or to nothing, or a task object, which is a task itself or    *)
(* the empty rest of one that was moved elsewhere.  A task has an identity *)
(* of its own and a priority; one at most acquires it and runs its         *)
(* function, once, with the arguments given; it lives exactly as long as   *)
(* something refers to it.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == -1
Hidden == 24           \* the slot of what thread t has acquired is Hidden + t + 1
Values == 33           \* the first slot of a task object
NoTask == [st |-> "no",          \* no, new, run, end
           own |-> None,         \* who has acquired it
           prio |-> 0, uid |-> 0,
           done |-> FALSE,       \* somebody knows that it is done
           fail |-> FALSE,       \* an attempt to acquire it failed
           val |-> 0,
           dead |-> FALSE,       \* the task is destroyed
           free |-> FALSE]       \* the function and its arguments are destroyed
InitH(ns, nk, nt) == [slot |-> [s \in 1..ns |-> None], is |-> [s \in 1..ns |-> s < Values], k |-> [j \in 0..(nk - 1) |-> NoTask],
                      c |-> [t \in 1..nt |-> <<>>],
                      hold |-> [t \in 1..nt |-> {}],       \* tasks that a pending call may still refer to
                      sn |-> [t \in 1..nt |-> FALSE],      \* what was known when the call began
                      bad |-> {}]
Say(m, ok, what) == IF ok THEN m ELSE [m EXCEPT !.bad = @ \cup {<<"HND", what>>}]
B(b) == IF b THEN 1 ELSE 0
Valid(m, s) == m.slot[s] # None
Referred(m, j) == \E s \in DOMAIN m.slot : m.slot[s] = j
Trying(m, t, j) == m.c[t] # <<>> /\ m.c[t][3] \in {"grab", "st", "aw", "exec"} /\ m.c[t][5] = j
OtherTries(m, t, j) == \E u \in DOMAIN m.c : u # t /\ Trying(m, u, j)
Other(k) == IF k = None THEN {} ELSE {k}

\* The references change with the call; what they referred to may live until it returns
Call(m, e) ==
    LET t == e[2] + 1
        op == e[3]
        s == e[4]
        x == e[5]
        m1 == [m EXCEPT !.c[t] = e]
        h(d) == [d EXCEPT !.hold[t] = Other(m.slot[s])]
    IN CASE op = "new" -> h([m1 EXCEPT !.k[x] = [NoTask EXCEPT !.st = "new", !.prio = e[6]], !.slot[s] = x, !.is[s] = TRUE])
         [] op = "cpy" -> h([m1 EXCEPT !.slot[s] = m.slot[x]])
         [] op = "mov" -> IF s = x THEN m1 ELSE h([m1 EXCEPT !.slot[s] = m.slot[x], !.slot[x] = None, !.is[s] = TRUE])
         [] op = "swap" -> [m1 EXCEPT !.slot[s] = m.slot[x], !.slot[x] = m.slot[s]]
         [] op = "rst" -> h([m1 EXCEPT !.slot[s] = None, !.is[s] = s < Values])
         [] op = "isg" -> [m1 EXCEPT !.sn[t] = m.k[x].own # None]
         [] op = "isd" -> [m1 EXCEPT !.sn[t] = m.k[x].done]
         [] OTHER -> m1

\* <<"b", t, task, arguments are right>>
Begin(m, e) ==
    LET t == e[2] + 1
        j == e[3]
        m1 == Say(m, m.k[j].st = "new", "a function runs twice, or without a task")
        m2 == Say(m1, m.c[t] # <<>> /\ m.c[t][3] \in {"exec", "st", "aw"} /\ m.c[t][5] = j, "a function runs although nobody executes its task")
        m3 == Say(m2, m.k[j].own = (IF m.c[t] # <<>> /\ m.c[t][3] = "exec" THEN e[2] ELSE None), "somebody else has acquired the task")
        m4 == Say(m3, e[4] = 1, "wrong arguments")
        m5 == Say(m4, ~m.k[j].dead /\ ~m.k[j].free, "a destroyed task runs")
    IN [m5 EXCEPT !.k[j].st = "run", !.k[j].own = e[2]]
Ended(m, e) ==
    LET t == e[2] + 1
        j == e[3]
        m1 == Say([m EXCEPT !.k[j].st = "end"], m.k[j].st = "run" /\ m.k[j].own = e[2], "the end of a function that isn't running")
    IN IF m.c[t] # <<>> /\ m.c[t][3] = "exec" /\ m.c[t][4] < Values
       THEN [m1 EXCEPT !.slot[m.c[t][4]] = None, !.hold[t] = @ \cup {j}] ELSE m1
\* the task is destroyed, the last part of the function and its arguments is
Dead(m, j) == [Say(m, m.k[j].st \in {"new", "end"} /\ ~m.k[j].dead /\ ~Referred(m, j), "a task is destroyed while something refers to it, or twice") EXCEPT !.k[j].dead = TRUE]
Freed(m, j) == [Say(m, m.k[j].st = "end" \/ (m.k[j].st = "new" /\ ~Referred(m, j)), "the function of a task is destroyed before the task ran") EXCEPT !.k[j].free = TRUE]

Return(m, e) ==
    LET t == e[2] + 1
        c == m.c[t]
        op == c[3]
        s == c[4]
        x == c[5]
        r == e[3]
        v == e[4]
        done(d) == [d EXCEPT !.c[t] = <<>>, !.hold[t] = {}]
        \* nothing is left of the tasks that nothing refers to
        swept(d) == Say(d, \A j \in DOMAIN d.k : d.k[j].st = "no" \/ (d.k[j].dead /\ d.k[j].free) \/ Referred(d, j) \/ \E u \in DOMAIN d.hold : j \in d.hold[u],
                        "a task is left although nothing refers to it")
        \* who returns from here knows that the task is done
        known(d) == Say([d EXCEPT !.k[x].done = TRUE], d.k[x].st = "end" /\ v = 2 * d.k[x].val + 1, "the function hasn't run to its end")
    IN swept(done(
       CASE op = "new" -> Say([m EXCEPT !.k[x].val = v], r = 1, "the handle of a new task is invalid")
         [] op \in {"cpy", "mov", "swap"} -> Say(m, r = B(Valid(m, s)) /\ v = B(Valid(m, x)), "wrong references after " \o op)
         [] op = "rst" -> Say(m, r = 0, "valid after the reset")
         [] op = "valid" -> Say(m, r = B(Valid(m, s)), "isValid() is wrong")
         [] op = "grab" /\ r = 1 -> LET m1 == Say(m, m.k[x].own = None, "acquired twice")
                                    IN [m1 EXCEPT !.k[x].own = e[2], !.slot = IF s < Values THEN [@ EXCEPT ![Hidden + t] = x] ELSE @]
         [] op = "grab" -> Say([m EXCEPT !.k[x].fail = TRUE], m.k[x].own # None \/ OtherTries(m, t, x), "not acquired although nobody else has")
         [] op = "exec" -> known(m)
         [] op = "st" -> Say(IF m.k[x].own = e[2] /\ m.k[x].st = "end" THEN [m EXCEPT !.k[x].done = TRUE] ELSE [m EXCEPT !.k[x].fail = TRUE],
                             m.k[x].own # None \/ OtherTries(m, t, x), "a task isn't executed")
         [] op \in {"wait", "aw"} -> known(m)
         [] op = "isg" -> Say(m, IF r = 1 THEN m.k[x].own # None \/ OtherTries(m, t, x) ELSE ~m.sn[t], "isGrabbed() is wrong")
         [] op = "isd" -> IF r = 1 THEN known(m) ELSE Say(m, ~m.sn[t], "isDone() is wrong")
         [] op = "uid" -> IF x = None THEN Say(m, r = 0, "the rest of a moved task has an id")
                          ELSE LET m0 == Say(m, v = 0, "the id of a task that is long gone")
                                   m1 == Say(m0, r # 0 /\ m.k[x].uid \in {0, r} /\ \A j \in DOMAIN m.k : j # x => m.k[j].uid # r, "the id of a task changes, or isn't its own")
                               IN [m1 EXCEPT !.k[x].uid = r]
         [] op = "prio" -> Say(m, r = m.k[x].prio, "wrong priority")
         [] op = "par" -> Say(m, r = 1, "a parent out of nowhere")
         [] op = "res" -> Say(known(m), r \in {-5, 3 * m.k[x].val + x}, "wrong result")
         [] OTHER -> m))
\* nothing runs any more
Quiet(m) ==
    LET m1 == Say(m, \A t \in DOMAIN m.c : m.c[t] = <<>>, "a call never returns") IN
    Say(m1, \A j \in DOMAIN m.k : (m.k[j].fail => m.k[j].own # None) /\ m.k[j].st # "run", "nobody has a task that couldn't be acquired")
End(m, e) == LET m1 == Say(m, e[3] = 0, "functions or arguments of tasks are left") IN
             LET m2 == Say(m1, \A j \in DOMAIN m.k : m.k[j].st # "no" => m.k[j].dead /\ m.k[j].free, "a task is never destroyed") IN
             Say(m2, e[4] = 0, "memory is left")
=============================================================================
