------------------------------ MODULE HandleGen ------------------------------
(***************************************************************************)
(* Behaviours of the specification of tasks and handles as one thread sees *)
(* them: one program per transition of the state graph.  The invariants    *)
(* hold of the specification.                                              *)
(***************************************************************************)
EXTENDS Handles, TLC, Json
CONSTANTS Slots, Objects, Tasks, Depth
VARIABLES m, n, hist
vars == <<m, n, hist>>
Init == m = InitH(34, Tasks, 1) /\ n = 0 /\ hist = <<>>
\* a call runs as the specification wants it: what has to be destroyed is destroyed
RECURSIVE Sweep(_, _)
Sweep(d, js) == IF js = {} THEN d
                ELSE LET j == CHOOSE j \in js : TRUE IN
                     Sweep(IF d.k[j].st # "no" /\ ~d.k[j].dead /\ ~Referred(d, j) THEN Freed(Dead(d, j), j) ELSE d, js \ {j})
Swept(d) == Sweep(d, DOMAIN d.k)
Do(op, s, x, y, r, v, o) == m' = Return(Swept(Call(m, <<"c", 0, op, s, x, y>>)), <<"r", 0, r, v>>) /\ hist' = Append(hist, o)
\* a call that executes the task x
Run(op, s, x, o) == LET a == Call(m, <<"c", 0, op, s, x, 0>>)
                        b == Swept(Ended(Begin(a, <<"b", 0, x, 1>>), <<"e", 0, x>>))
                    IN m' = Return(b, <<"r", 0, 1, 2 * m.k[x].val + 1>>) /\ hist' = Append(hist, o)
All == Slots \cup Objects
Mine == Hidden + 1
After(op, s, x) == Call(m, <<"c", 0, op, s, x, 0>>)
Refer == \/ \E s \in All : /\ n < Tasks /\ (s \in Objects => ~m.is[s])
                           /\ Do("new", s, n, 1 + n, 1, 5, <<1, s - 1, 0, 100 * (1 + n) + 5>>) /\ n' = n + 1
         \/ \E d, s \in Slots : Do("cpy", d, s, 0, B(Valid(m, s)), B(Valid(m, s)), <<2, d - 1, s - 1, 0>>) /\ UNCHANGED n
         \/ \E d, s \in All : /\ (d \in Slots) = (s \in Slots) /\ m.is[s]
                              /\ LET a == After("mov", d, s) IN Do("mov", d, s, 0, B(Valid(a, d)), B(Valid(a, s)), <<3, d - 1, s - 1, 0>>) /\ UNCHANGED n
         \/ \E d, s \in Slots : d < s /\ LET a == After("swap", d, s) IN Do("swap", d, s, 0, B(Valid(a, d)), B(Valid(a, s)), <<16, d - 1, s - 1, 0>>) /\ UNCHANGED n
         \/ \E s \in All : m.is[s] /\ Do("rst", s, 0, 0, 0, 0, <<4, s - 1, 0, 0>>) /\ UNCHANGED n
Use(s) == LET x == m.slot[s]
              free == m.k[x].own = None
              over == m.k[x].st = "end" IN
          /\ x # None
          /\ \/ m.slot[Mine] = None /\ (s \in Objects => free) /\ Do("grab", s, x, 0, B(free), 0, <<6, s - 1, 0, 0>>)
             \/ s \in Objects /\ ~free /\ ~over /\ Run("exec", s, x, <<7, s - 1, 0, 0>>)
             \/ IF free THEN Run("st", s, x, <<8, s - 1, 0, 0>>) ELSE Do("st", s, x, 0, 1, 0, <<8, s - 1, 0, 0>>)
             \/ (free /\ (m.slot[Mine] = None)) /\ Run("aw", s, x, <<10, s - 1, 0, 0>>)
             \/ over /\ Do("aw", s, x, 0, 1, 2 * m.k[x].val + 1, <<10, s - 1, 0, 0>>)
             \/ over /\ Do("wait", s, x, 0, 1, 2 * m.k[x].val + 1, <<9, s - 1, 0, 0>>)
          /\ UNCHANGED n
Acquired == LET x == m.slot[Mine] IN x # None /\ Run("exec", Mine, x, <<7, 0, 0, 0>>) /\ UNCHANGED n
Next == Len(hist) < Depth /\ (Refer \/ Acquired \/ \E s \in All : Use(s)) /\ PrintT("@GEN " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
View == <<m, n>>
Consistent == m.bad = {}
\* who lives is referred to, who is referred to lives
Lives == \A j \in DOMAIN m.k : m.k[j].st # "no" => (Referred(m, j) <=> ~m.k[j].dead)
\* a task object is one task, and nobody else's
Unique == \A a \in Objects, b \in All : a # b /\ m.slot[a] # None => m.slot[a] # m.slot[b]
Once == \A j \in DOMAIN m.k : m.k[j].st \in {"run", "end"} => m.k[j].own # None
=============================================================================
