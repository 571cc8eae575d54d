----------------------------- MODULE ChainModel -----------------------------
(* The counters of the algorithm (tried starts at -1, accepted at -1, the first recorded state is appended twice)
   run next to the abstract chain; all histories of batches.  TLC has no negative literals in cfg files, so the
   counters are shifted by one here. *)
EXTENDS Chain, TLC
CONSTANTS L, M, NMAX, STEPS, BUG
VARIABLES c, cur, learned, tried1, accepted1, entries, step, ended
vars == << c, cur, learned, tried1, accepted1, entries, step, ended >>
Init == /\ c = Start(0) /\ cur = 0 /\ learned = 0 /\ tried1 = 0 /\ accepted1 = 0 /\ entries = << >> /\ step = 0 /\ ended = FALSE
\* state of the counters as a record, to fold the tries of a batch
S0 == [cur |-> cur, learned |-> learned, tried1 |-> tried1, accepted1 |-> accepted1, entries |-> entries]
Full(s) == s.tried1 >= M + 1
AppendState(s) == [s EXCEPT !.entries = Append(@, s.cur), !.tried1 = @ + 1]
Add(s, id) ==
  LET t == [s EXCEPT !.cur = id] IN
  IF s.learned < L THEN (IF BUG = "learning" THEN [t EXCEPT !.entries = Append(@, id)] ELSE t)
  ELSE LET u == AppendState(t) IN
       IF u.tried1 = 1 /\ BUG # "once" THEN AppendState([u EXCEPT !.accepted1 = @ + 1]) ELSE u
Old(s) == IF Full(s) /\ BUG # "overrun" THEN s ELSE Add(s, s.cur)
New(s, id) == IF Full(s) /\ BUG # "overrun" THEN s
              ELSE LET t == Add(s, id) IN
                   IF s.learned < L THEN [t EXCEPT !.learned = @ + 1] ELSE [t EXCEPT !.accepted1 = @ + 1]
RECURSIVE Olds(_, _)
Olds(s, n) == IF n = 0 THEN s ELSE Olds(Old(s), n - 1)
After(n, k, ids) == IF k = 0 THEN Olds(S0, IF BUG = "single" THEN 1 ELSE n) ELSE New(Olds(S0, IF BUG = "single" /\ k > 1 THEN k - 2 ELSE k - 1), ids[k])
Iterate(n, k) ==
  /\ ~ended /\ step < STEPS /\ k <= n
  /\ LET ids == [j \in 1..n |-> 10 * (step + 1) + j]
         s == After(n, k, ids) IN
     /\ c' = Batch(c, ids, k, L, M)
     /\ cur' = s.cur /\ learned' = s.learned /\ tried1' = s.tried1 /\ accepted1' = s.accepted1 /\ entries' = s.entries
     /\ ended' = Full(s)
  /\ step' = step + 1
Done == (ended \/ step = STEPS) /\ UNCHANGED vars
Next == (\E n \in 1..NMAX, k \in 0..NMAX : Iterate(n, k)) \/ Done
Spec == Init /\ [][Next]_vars
\* the counters implement the abstract chain
SameRecord == entries = Record(c)
SameCounts == tried1 > 0 => (tried1 - 1 = Tried(c) /\ accepted1 = c.accepted + 1 /\ Len(entries) = tried1)
EndsAtLength == /\ ended => tried1 = M + 1
                /\ tried1 <= M + 1
                /\ Tried(c) <= M
\* the abstract chain itself: repeats on rejection, one change per accepted try, only known sources
Changes(s) == LET f[j \in 0..Len(s)] == IF j < 2 THEN 0 ELSE f[j - 1] + (IF s[j] # s[j - 1] THEN 1 ELSE 0) IN f[Len(s)]
Counted == c.reached # << >> => (c.accepted - Changes(Record(c))) \in 0..1
=============================================================================
