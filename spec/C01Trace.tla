------------------------------ MODULE C01Trace ------------------------------
EXTENDS TraceSpec, Posterior
VARIABLE i
\* e.obs: the selected observations (what the dictionary says); e.w: weights of the location samples; e.mts: the
\* candidates; e.cols[c]: which candidate column c of the answer is (0: none of them); e.lnp: rows of the answer
Rows(e) == IF e.marg THEN 1 ELSE Len(e.w)
Shape(e) == /\ Len(e.lnp) = Rows(e) /\ \A r \in 1..Len(e.lnp) : Len(e.lnp[r]) = Len(e.cols)
Empty(e) == Len(e.cols) = 0
Zeroish(b) == \A r \in 1..Len(b) : REq(b[r][1], RNegInf)
Values(e) ==
  LET Ex == [c \in 1..Len(e.mts) |-> PosteriorRows(e.obs, e.w, e.marg, e.mts[c])]
  IN CK("Value", \A c \in 1..Len(e.cols) : \A r \in 1..Rows(e) : Within(e.lnp[r][c], Ex[e.cols[c]][r]))
     \cup CK("OnlyZeroDropped", e.complete => \A m \in 1..Len(e.mts) : (\E c \in 1..Len(e.cols) : e.cols[c] = m) \/ (~e.keep /\ Zeroish(Ex[m])))
Failing(e) ==
  IF e.error # "" THEN CK("Accepted", FALSE)
  ELSE CK("Tried", e.n = e.tried)
       \cup CK("Candidates", /\ \A c \in 1..Len(e.cols) : e.cols[c] \in 1..Len(e.mts)
                             /\ \A c, d \in 1..Len(e.cols) : c # d => e.cols[c] # e.cols[d])
       \cup (IF Empty(e) THEN {} ELSE CK("Shape", Shape(e)))
       \cup (IF Empty(e) \/ ~Shape(e) THEN {}
             ELSE CK("FilterOff", e.keep \/ \A c \in 1..Len(e.cols) : \E r \in 1..Len(e.lnp) : ~REq(e.lnp[r][c], RNegInf)))
       \cup (IF (\A c \in 1..Len(e.cols) : e.cols[c] \in 1..Len(e.mts)) /\ (Empty(e) \/ Shape(e)) THEN Values(e) ELSE {})
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
