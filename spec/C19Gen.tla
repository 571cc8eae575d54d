------------------------------- MODULE C19Gen -------------------------------
(* Scenario space of C19: ways to make a container x histories of operations on it; projections x options x forms of points *)
EXTENDS TraceIO, TLC, Integers
VARIABLES s, out
Sizes == {"1", "2", "3", "6", "few", "40"}
Kinds == {"generic", "dc", "mixed", "special", "integer"}
ProbKinds == {"none", "list", "ties", "zeros", "wide", "equal"}
Make == [op : {"make"}, n : Sizes, kind : Kinds, prob : ProbKinds, form : {"array", "list", "matrix", "rows", "stack", "stacklist", "vector", "output", "oldoutput", "kwargs", "int"}]
OKmake(x) == /\ (x.form = "vector" => x.n = "1") /\ (x.form = "rows" => x.n # "6")
             /\ (x.form = "int" => x.kind = "integer")
Ops == {"single", "last", "slice", "step", "reverse", "mask", "list", "repeat", "all", "empty", "put", "putslice", "putmask", "unique", "max", "maxsingle", "touch"}
Hist == [op : {"hist"}, n : Sizes, prob : ProbKinds, dup : BOOLEAN, derived : {"none", "axes", "some", "all"}, first : Ops, second : Ops, third : {"none", "slice", "mask", "unique", "max"}]
OKhist(x) == (x.first \in {"put", "putslice", "putmask"} => x.prob = "none") /\ x.first # "empty" /\ (x.first \in {"max", "maxsingle"} => x.prob # "none")
Proj == [op : {"proj"}, fn : {"area", "angle"}, lower : BOOLEAN, full : BOOLEAN, back : BOOLEAN, axis : {"none", "down", "up", "north", "random", "nearup", "long"},
         form : {"array", "scalar", "npscalar", "list", "grid", "matrix", "strided"}, points : {"random", "poles", "equator", "nearpole", "nearequator", "axes", "mixed"}]
OKproj(x) == (x.form = "matrix" \/ x.form = "list") => x.axis = "none"
Init == s \in {x \in Make : OKmake(x)} \cup {x \in Hist : OKhist(x)} \cup {x \in Proj : OKproj(x)} /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
