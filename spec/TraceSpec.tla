----------------------------- MODULE TraceSpec -----------------------------
(***************************************************************************)
(* The part every trace specification shares.  A trace is a sequence of     *)
(* recorded calls of the implementation; EXTENDing modules define           *)
(* Failing(e), the set of the names of the clauses event e breaks, and      *)
(* instantiate TInit/TNext.  Every line is consumed whatever its verdict    *)
(* (total verdict), so that one rejected event does not hide the rest.      *)
(***************************************************************************)
EXTENDS TraceIO, RealArith, TLC
Trace == NdJsonLoad(EnvVar("VP_TRACE"))

\* one line per rejected event, and a last one saying that the whole trace was consumed
Report(k, fs) == /\ fs = {} \/ PrintT(<<"VPFAIL", k, fs>>)
                 /\ k < Len(Trace) \/ PrintT(<<"VPDONE", k, ClauseCounts(fs)>>)
Finish(k) == TLCGet("stats").diameter = k + 1
=============================================================================
