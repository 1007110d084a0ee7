----------------------------- MODULE Partition ------------------------------
(***************************************************************************)
(* What a partitioner owes its callers.  The state describes, for every    *)
(* partitioner, what it was asked for and the ranges it handed out; calls  *)
(* and returns of concurrent callers update it, and Bad collects whatever  *)
(* contradicts the contract:                                               *)
(*  - a range is not empty, within the bounds, disjoint from the others;   *)
(*  - nothing is handed out by a call made after one that found nothing;   *)
(*  - a call finds nothing only if everything is handed out (or about to   *)
(*    be, by calls under way);                                             *)
(*  - chunks: never more than asked for; equal sizes: as many batches as   *)
(*    announced, all of the same size up to one;                           *)
(*  - announced batches: at most the maximum, at most one per index;       *)
(*  - a copy starts where its original was and goes on by itself.          *)
(* Ranges are kept as intervals <<a, b>>, b excluded.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

NoPart == [k |-> 0, f |-> 0, l |-> 0, g |-> 0, mb |-> 0, b |-> -1, got |-> {}, low |-> {}, up |-> {}, ended |-> FALSE, orig |-> TRUE]
NoCall == [op |-> "", s |-> 0, late |-> FALSE, also |-> {}, src |-> 0]
InitM(np, nt) == [p |-> [i \in 1..np |-> NoPart], c |-> [t \in 1..nt |-> NoCall], bad |-> {}]

Chunked(k) == k \in {1, 2}
Max0(a, b) == IF a > b THEN a ELSE b
Min0(a, b) == IF a < b THEN a ELSE b
Size(p) == IF p.l > p.f THEN p.l - p.f ELSE 0
LenI(i) == i[2] - i[1]
Common(i, j) == LET a == Max0(i[1], j[1]) b == Min0(i[2], j[2]) IN IF b > a THEN b - a ELSE 0
Total(S) == FoldSet(LAMBDA i, acc : acc + LenI(i), 0, S)
\* indices of the intervals U that are in none of G (both sets of disjoint intervals)
Beyond(U, G) == FoldSet(LAMBDA u, acc : acc + LenI(u) - FoldSet(LAMBDA g, a : a + Common(u, g), 0, G), 0, U)
Missing(p) == Size(p) - Total(p.got) - Beyond(p.up, p.got)
Ceil(n, b) == n \div b + (IF n % b > 0 THEN 1 ELSE 0)
Largest(p) == IF Chunked(p.k) THEN p.g ELSE Ceil(Size(p), p.b)

Say(m, cond, what) == IF cond THEN m ELSE [m EXCEPT !.bad = @ \cup {<<"PART", what>>}]

\* what a partitioner tells about itself
Told(m, s, valid, b, n) ==
    LET p == m.p[s]
        m1 == Say(m, (valid = 1) <=> Size(p) > 0, "valid although there are no indices, or the other way round")
        m2 == Say(m1, n = p.l - p.f, "wrong number of elements")
        m3 == Say(m2, Size(p) > 0 => b >= 1 /\ b <= p.mb /\ b <= Size(p), "number of batches")
        m4 == Say(m3, p.b < 0 \/ p.b = b, "the number of batches changes")
    IN [m4 EXCEPT !.p[s].b = b]

---------------------------------------------------------------------------
\* calls
New(m, t, s, k, f, l, g, mb) ==
    LET from == IF k \in {2, 4} THEN 0 ELSE f IN
    [m EXCEPT !.p[s] = [NoPart EXCEPT !.k = k, !.f = from, !.l = l, !.g = g, !.mb = mb], !.c[t] = [NoCall EXCEPT !.op = "info", !.s = s]]
Copy(m, t, d, s) == [m EXCEPT !.p[d] = [m.p[s] EXCEPT !.got = {}, !.low = m.p[s].low \cup m.p[s].got, !.up = {}, !.orig = FALSE],
                              !.c[t] = [NoCall EXCEPT !.op = "copy", !.s = d, !.src = s]]
Info(m, t, s) == [m EXCEPT !.c[t] = [NoCall EXCEPT !.op = "info", !.s = s]]
Next(m, t, s) == [m EXCEPT !.c[t] = [NoCall EXCEPT !.op = "next", !.s = s, !.late = m.p[s].ended]]

\* returns
RetCopy(m, t, r, a, b) ==
    LET d == m.c[t].s
        s == m.c[t].src
        seen == [m EXCEPT !.p[d].up = m.p[s].up \cup m.p[s].got \cup m.p[s].low,
                          !.c = [u \in DOMAIN m.c |-> IF m.c[u].op = "next" /\ (m.c[u].s = s \/ s \in m.c[u].also)
                                                      THEN [m.c[u] EXCEPT !.also = @ \cup {d}] ELSE m.c[u]]]
    IN [Told(seen, d, r, a, b) EXCEPT !.c[t] = NoCall]
RetRange(m, t, a, b) ==
    LET s == m.c[t].s
        p == m.p[s]
        r == <<a, b>>
        ok == a < b /\ a >= p.f /\ b <= p.l
        m1 == Say(m, ok, "a range that is empty or out of bounds")
        m2 == Say(m1, \A x \in p.got \cup p.low : Common(x, r) = 0, "an index is handed out twice")
        m3 == Say(m2, ~m.c[t].late, "hands out a range although it was exhausted")
        m4 == Say(m3, ok => IF Chunked(p.k) THEN b - a <= p.g
                            ELSE b - a \in {Size(p) \div p.b, Ceil(Size(p), p.b)}, "the size of a range")
        m5 == Say(m4, Chunked(p.k) \/ Cardinality(p.got) < p.b, "more ranges than announced")
    IN [m5 EXCEPT !.p = [i \in DOMAIN @ |-> IF i = s THEN [@[i] EXCEPT !.got = @ \cup {r}]
                                            ELSE IF i \in m.c[t].also THEN [@[i] EXCEPT !.up = @ \cup {r}] ELSE @[i]],
                  !.c[t] = NoCall]
RetNone(m, t) ==
    LET s == m.c[t].s
        p == m.p[s]
        others == Cardinality({u \in DOMAIN m.c \ {t} : m.c[u].op = "next" /\ (m.c[u].s = s \/ s \in m.c[u].also)})
        m1 == Say(m, LET n == Missing(p) IN n <= 0 \/ (n - 1) \div Largest(p) < others, "finds nothing although indices are left")
    IN [m1 EXCEPT !.p[s].ended = TRUE, !.c[t] = NoCall]
Ret(m, t, r, a, b) ==
    CASE m.c[t].op = "info" -> [Told(m, m.c[t].s, r, a, b) EXCEPT !.c[t] = NoCall]
      [] m.c[t].op = "copy" -> RetCopy(m, t, r, a, b)
      [] m.c[t].op = "next" -> IF r = 1 THEN RetRange(m, t, a, b) ELSE RetNone(m, t)
      [] OTHER -> m
\* no call is under way any more
End(m) ==
    LET m1 == Say(m, \A s \in DOMAIN m.p : m.p[s].ended /\ Size(m.p[s]) > 0 => Missing(m.p[s]) = 0, "an index is never handed out")
    IN Say(m1, \A s \in DOMAIN m.p : LET p == m.p[s] IN p.ended /\ p.orig /\ Size(p) > 0 /\ ~Chunked(p.k) => Cardinality(p.got) = p.b, "fewer ranges than announced")
=============================================================================
