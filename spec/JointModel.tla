------------------------------ MODULE JointModel ------------------------------
(***************************************************************************)
(* How a joint forward task accumulates the probability of tuples of        *)
(* sources, as a state machine over exact integers: the events are taken in *)
(* turn, each multiplies in its own likelihood, impossible tuples are       *)
(* filtered, then the pair terms with the earlier events multiply in, on    *)
(* the stations the two events share.  The answer is the product over the   *)
(* events and the contributing pairs of the tuple's own values, whatever    *)
(* the order of the stations, the filter and the earlier events.            *)
(* POSITIONAL pairs the shared stations by position; STALE keeps the        *)
(* sources of the current event from before the filtering of a pair; ANYROW *)
(* filters tuples impossible at one location sample only; FIRSTTASK reuses  *)
(* the first event's data.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS POSITIONAL, STALE, ANYROW, WRONGMIN
E == 3
C == 2      \* candidate tuples
K == 2      \* location samples
VARIABLES own, st, min, keep, acc, ids, ev, other, pc, cur
vars == << own, st, min, keep, acc, ids, ev, other, pc, cur >>
Orders == { << "a", "b" >>, << "b", "a" >>, << "b" >> }
Ix(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Has(s, x) == \E k \in 1..Len(s) : s[k] = x
SharedI(a, b) == SelectSeq([k \in 1..Len(a) |-> k], LAMBDA k : Has(b, a[k]))
SharedJ(a, b) == SelectSeq([k \in 1..Len(b) |-> k], LAMBDA k : Has(a, b[k]))
\* the data value of station x of event e: a prime per (event, station); the pair term multiplies, per shared station, value(i) * 100 + value(j), and depends on the sources
Datum(e, x) == e * 2 + (IF x = "a" THEN 0 ELSE 1)
One(i, xi, j, xj, ci, cj) == IF xi = xj THEN Datum(i, xi) + Datum(j, xj) + ci + cj ELSE 17
RECURSIVE Prod(_)
Prod(s) == IF s = << >> THEN 1 ELSE Head(s) * Prod(Tail(s))
ByName(i, j) == [k \in 1..Len(SharedI(st[i], st[j])) |-> LET x == st[i][SharedI(st[i], st[j])[k]] IN << x, x >>]
ByPosition(i, j) == [k \in 1..Len(SharedI(st[i], st[j])) |-> << st[i][SharedI(st[i], st[j])[k]], st[j][SharedJ(st[i], st[j])[k]] >>]
Term(i, j, ci, cj, m) == Prod([k \in 1..Len(m) |-> One(i, m[k][1], j, m[k][2], ci, cj)])
Zero(c) == IF ANYROW THEN \E k \in 1..K : acc[c][k] = 0 ELSE \A k \in 1..K : acc[c][k] = 0
Alive(a) == SelectSeq([c \in 1..Len(a) |-> c], LAMBDA c : IF ANYROW THEN \A k \in 1..K : a[c][k] # 0 ELSE \E k \in 1..K : a[c][k] # 0)
Init == /\ own \in {[e \in 1..E |-> [c \in 1..C |-> [k \in 1..K |-> IF << e, c, k >> \in z THEN 0 ELSE e + c]]] : z \in {x \in SUBSET ((2..E) \X {1, C} \X (1..K)) : Cardinality(x) <= 2}}
        /\ st \in [1..E -> Orders] /\ min \in 1..2 /\ keep \in BOOLEAN
        /\ acc = [c \in 1..C |-> [k \in 1..K |-> 1]] /\ ids = [c \in 1..C |-> c] /\ cur = [c \in 1..C |-> c]
        /\ ev = 1 /\ other = 0 /\ pc = "own"
Filter(a) == IF keep THEN [c \in 1..Len(a) |-> c] ELSE Alive(a)
Own == /\ pc = "own"
       /\ LET a == [c \in 1..Len(ids) |-> [k \in 1..K |-> acc[c][k] * own[ev][ids[c]][k]]]
              f == Filter(a)
          IN /\ acc' = [n \in 1..Len(f) |-> a[f[n]]] /\ ids' = [n \in 1..Len(f) |-> ids[f[n]]] /\ cur' = [n \in 1..Len(f) |-> ids[f[n]]]
       /\ pc' = "pair" /\ other' = 1 /\ UNCHANGED << own, st, min, keep, ev >>
\* the pair term may make a tuple impossible: modelled by the tuple whose index sum is three
Pair == /\ pc = "pair" /\ other < ev
        /\ LET m == IF POSITIONAL THEN ByPosition(ev, other) ELSE ByName(ev, other)
               enough == IF WRONGMIN THEN Len(m) > min ELSE Len(m) >= min
               mine(c) == IF STALE /\ Len(cur) > c THEN cur[Len(cur)] ELSE ids[c]
               a == [c \in 1..Len(ids) |-> [k \in 1..K |-> IF enough THEN acc[c][k] * Term(ev, other, mine(c), ids[c], m) * (IF own[ev][ids[c]][k] = 0 THEN 0 ELSE 1) ELSE acc[c][k]]]
               f == Filter(a)
           IN /\ acc' = [n \in 1..Len(f) |-> a[f[n]]] /\ ids' = [n \in 1..Len(f) |-> ids[f[n]]]
              /\ cur' = (IF STALE THEN cur ELSE [n \in 1..Len(f) |-> ids[f[n]]])
        /\ other' = other + 1 /\ UNCHANGED << own, st, min, keep, ev, pc >>
NextEvent == /\ pc = "pair" /\ other = ev
             /\ (IF ev = E THEN pc' = "done" /\ ev' = ev ELSE pc' = "own" /\ ev' = ev + 1)
             /\ other' = 0 /\ UNCHANGED << own, st, min, keep, acc, ids, cur >>
Stop == pc = "done" /\ UNCHANGED vars
Next == Own \/ Pair \/ NextEvent \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Own \/ Pair \/ NextEvent)
PairsOf == {p \in (1..E) \X (1..E) : p[2] < p[1]}
PairValue(p, c) == LET m == ByName(p[1], p[2]) IN IF Len(m) >= min THEN Term(p[1], p[2], c, c, m) ELSE 1
Expected(c, k) == Prod([e \in 1..E |-> own[e][c][k]]) * PairValue(<< 2, 1 >>, c) * PairValue(<< 3, 1 >>, c) * PairValue(<< 3, 2 >>, c)
Additive == pc = "done" => \A n \in 1..Len(ids) : \A k \in 1..K : acc[n][k] = Expected(ids[n], k)
FilterExact == pc = "done" => {ids[n] : n \in 1..Len(ids)} = {c \in 1..C : keep \/ \E k \in 1..K : Expected(c, k) # 0}
Finishes == <>(pc = "done")
=============================================================================
