------------------------------ MODULE TraceIO ------------------------------
(***************************************************************************)
(* Reading recorded traces / emitting scenarios (newline-delimited JSON),   *)
(* and total clause evaluation.  Overridden by java/vp/TraceIO.java.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

NdJsonLoad(path) == CHOOSE s : TRUE          \* sequence of records
NdJsonAppend(path, v) == TRUE                \* appends v as one JSON line
EnvVar(name) == CHOOSE s \in STRING : TRUE
EnvInt(name, default) == CHOOSE n \in Int : TRUE
Has(rec, field) == CHOOSE b \in BOOLEAN : TRUE

\* A named clause: the set of the names of the clauses that fail.  In the override an expression that
\* cannot be evaluated (e.g. the implementation returned the wrong shape) counts as a failed clause.
CK(name, e) == IF e THEN {} ELSE {name}
Guard(e) == e
ClauseCounts(k) == CHOOSE s \in STRING : TRUE   \* how often each clause was evaluated, as JSON text
=============================================================================
