------------------------------- MODULE C17Gen -------------------------------
(* Scenario space of C17: forms of CSV files, hypocentre files and results *)
EXTENDS TraceIO, TLC, Integers
VARIABLES s, out
Csv == [op : {"csv"}, events : 1..5, rows : {"1", "2", "few", "20"}, cols : {"plain", "permuted", "case", "extra", "leading"}, width : {"one", "two", "bytype"}, uid : {"none", "some", "all", "twins"},
        nl : {"lf", "crlf"}, ending : {"none", "newline", "blank"}, blank : {"commas", "empty", "one"}, num : {"int", "float", "sci"}, pad : BOOLEAN]
OKcsv(x) == (x.uid = "twins" => x.events > 1) /\ (x.pad => x.cols = "plain" \/ x.cols = "permuted")
Hyp == [op : {"hyp"}, events : 1..3, picks : {"0", "1", "few", "many"}, phases : {"P", "PS", "many"}, last : {"end", "none"}, words : {25, 26, 27}, nl : {"lf", "crlf"}, short : BOOLEAN, blank : BOOLEAN]
Bin == [op : {"bin"}, events : 1..3, n : {0, 1, 2, 3, 17, 200}, conv : BOOLEAN, shape : {"matrix", "flat"}, scale : BOOLEAN, evidence : {"both", "none", "dkl"}, files : 1..3, mag : {"typical", "wide", "zero"}]
OKbin(x) == (x.scale => x.events > 1)
Init == s \in {x \in Csv : OKcsv(x)} \cup Hyp \cup {x \in Bin : OKbin(x)} /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
