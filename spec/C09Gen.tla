------------------------------- MODULE C09Gen -------------------------------
(* Scenario space of C09: histories (sizes of the batches relative to the storage increment, and which candidates *)
(* have zero probability), configurations, and sample-count-limited runs.  Histories and configurations are crossed *)
(* at random by the driver. *)
EXTENDS TraceIO, TLC
VARIABLES s, out
Sizes == {"0", "1", "inc-1", "inc", "inc+1", "3inc"}
Zero == {"none", "some", "all"}
Batch == [size : Sizes, zero : Zero]
Hist == [op : {"hist"}, batches : UNION {[1..n -> Batch] : n \in 1..3}]
Config == [op : {"config"}, store : {"memory", "safe", "unsafe"}, events : 1..3, rows : {1, 3}, inc : {1, 2, 3, 5, 8}, scale : {"none", "array"},
           discard : {0, 2, 30, 10000}, normalise : BOOLEAN, mag : {"typical", "huge", "ties", "wide"}, reopen : BOOLEAN, many : BOOLEAN, box : {"lnpdf", "array", "float"}]
OKc(x) == (x.scale = "array" => x.events > 1) /\ (x.reopen => x.store # "memory") /\ (x.box = "float" => x.rows = 1) /\ (x.rows > 1 => x.store = "memory" \/ x.inc = 3)
Limit == [op : {"limit"}, algo : {"iterate", "inversion"}, max : {"1", "batch", "batch+1", "3batch", "3batch-1", "big"}, zero : Zero, events : 1..2, batch : {1, 3, 10}, file : BOOLEAN]
Init == s \in {x \in Hist \cup Config \cup Limit : x.op # "config" \/ OKc(x)} /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
