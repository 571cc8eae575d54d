------------------------------- MODULE Chain -------------------------------
(* A Markov-chain run as a function of the outcomes of its tries.
   State: cur (identity of the current source), learned (accepted tries of the learning period),
   reached (current source after every try made after the learning period), tries, accepted.
   The learning period ends after L accepted tries and leaves nothing in the record; the record
   holds the source reached after every try, the first one once more; the run ends at M tries. *)
EXTENDS Naturals, Sequences
Start(id) == [cur |-> id, learned |-> 0, reached |-> << >>, accepted |-> 0]
Learning(c, L) == c.learned < L
Complete(c, M) == Len(c.reached) >= M
\* one try of the proposal id, accepted or not
Try(c, id, acc, L, M) ==
  IF Complete(c, M) THEN c
  ELSE LET cur == IF acc THEN id ELSE c.cur IN
       IF Learning(c, L) THEN [c EXCEPT !.cur = cur, !.learned = @ + (IF acc THEN 1 ELSE 0)]
       ELSE [c EXCEPT !.cur = cur, !.reached = Append(@, cur), !.accepted = @ + (IF acc THEN 1 ELSE 0)]
\* a batch of tries of the proposals ids[1], ids[2], ..: k = 0 when none is accepted, otherwise the k-th is the first accepted one and the rest is dropped
RECURSIVE Reject(_, _, _, _)
Reject(c, n, L, M) == IF n = 0 THEN c ELSE Reject(Try(c, c.cur, FALSE, L, M), n - 1, L, M)
Batch(c, ids, k, L, M) == IF k = 0 THEN Reject(c, Len(ids), L, M) ELSE Try(Reject(c, k - 1, L, M), ids[k], TRUE, L, M)
\* what the run returns
Record(c) == IF c.reached = << >> THEN << >> ELSE << c.reached[1] >> \o c.reached
Tried(c) == Len(c.reached)
=============================================================================
