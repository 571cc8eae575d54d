----------------------------- MODULE TriadModel -----------------------------
(***************************************************************************)
(* Why drawing a, then x, and taking b = a x x, c = a x b gives a uniformly *)
(* random triad: exhaustive over the finite rotation group of the cube.     *)
(* Every draw (a, x) of signed axis directions, x redrawn while parallel to *)
(* a, is explored; `hits' counts how often each triad comes up.  At the end *)
(* all 24 rotations have come up equally often, and the counts are          *)
(* invariant under every rotation of the cube.  Leaving out the redraw      *)
(* leaves a state without a triad; a construction that keeps x itself is    *)
(* not orthogonal (BrokenTriad).                                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
Dirs == {<<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>>}
Crs(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
Dt(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Zero == <<0,0,0>>
VARIABLES pc, a, x, todo, hits
vars == << pc, a, x, todo, hits >>
Triad(u, v) == << u, Crs(u, v), Crs(u, Crs(u, v)) >>
Init == pc = "draw" /\ a = Zero /\ x = Zero /\ todo = Dirs \X Dirs /\ hits = [t \in {} |-> 0]
Draw == /\ pc = "draw" /\ todo # {}
        /\ LET p == CHOOSE p \in todo : TRUE
           IN a' = p[1] /\ x' = p[2] /\ todo' = todo \ {p}
        /\ pc' = "check" /\ UNCHANGED hits
Redraw == pc = "check" /\ Crs(a, x) = Zero /\ pc' = "draw" /\ UNCHANGED << a, x, todo, hits >>
Make == /\ pc = "check" /\ Crs(a, x) # Zero
        /\ LET t == Triad(a, x) IN hits' = [u \in DOMAIN hits \cup {t} |-> (IF u \in DOMAIN hits THEN hits[u] ELSE 0) + (IF u = t THEN 1 ELSE 0)]
        /\ pc' = "draw" /\ UNCHANGED << a, x, todo >>
Done == pc = "draw" /\ todo = {} /\ UNCHANGED vars
Next == Draw \/ Redraw \/ Make \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Draw \/ Redraw \/ Make)
IsTriad(t) == \A i, j \in 1..3 : Dt(t[i], t[j]) = (IF i = j THEN 1 ELSE 0)
Orthonormal == \A t \in DOMAIN hits : IsTriad(t)
Handed == \A t \in DOMAIN hits : Crs(t[1], t[2]) = t[3]
\* rotations of the cube: images of the three axes
Rotations == {r \in Dirs \X Dirs \X Dirs : Dt(r[1], r[2]) = 0 /\ Crs(r[1], r[2]) = r[3]}
App(r, v) == [k \in 1..3 |-> r[1][k]*v[1] + r[2][k]*v[2] + r[3][k]*v[3]]
Rot(r, t) == << App(r, t[1]), App(r, t[2]), App(r, t[3]) >>
Uniform == (pc = "draw" /\ todo = {}) =>
  /\ Cardinality(DOMAIN hits) = 24
  /\ \A t \in DOMAIN hits : hits[t] = hits[CHOOSE u \in DOMAIN hits : TRUE]
Invariant == (pc = "draw" /\ todo = {}) =>
  \A r \in Rotations : \A t \in DOMAIN hits : Rot(r, t) \in DOMAIN hits /\ hits[Rot(r, t)] = hits[t]
Finishes == <>(pc = "draw" /\ todo = {})
=============================================================================
