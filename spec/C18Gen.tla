------------------------------- MODULE C18Gen -------------------------------
(* Scenario space of C18: forms of scatter files x sample sets x bin sizes x sub-sampling x entry points *)
EXTENDS TraceIO, TLC, Integers
VARIABLES s, out
Read == [op : {"read"}, n : {"1", "2", "few", "200"}, st : {"1", "2", "few", "30"}, nl : {"lf", "crlf"}, ending : {"none", "newline", "blank", "blanks"}, sep : {"space", "tab", "mixed"},
         weight : {"one", "wide", "sci", "int"}, blank : {"one", "many", "spaces"}, lead : BOOLEAN, order : {"same", "permuted", "sets"}, entry : {"parse", "inversion", "extension"}]
OKread(x) == (x.n = "200" => x.st # "30" \/ x.sep = "tab") /\ (x.lead => x.blank = "one")
Round == [op : {"round"}, n : {"1", "2", "few", "200"}, st : {"1", "2", "few", "30"}, nl : {"lf", "crlf"}, weight : {"one", "wide", "sci", "int"}, digits : {"1", "4", "17"}, order : {"same", "permuted", "sets"}, entry : {"writer", "bin"}]
Bin == [op : {"bin"}, n : {"1", "2", "few", "60", "200"}, st : {"1", "2", "few", "30"}, bin : {"0", "0.25", "0.5", "1", "2", "7.3", "20", "400"}, spread : {"tight", "grid", "cluster", "one", "wide"},
        order : {"same", "permuted", "sets"}, weight : {"one", "wide", "int"}, entry : {"parse", "file"}]
OKbin(x) == x.n = "200" => x.order = "same"
Sub == [op : {"sub"}, n : {"1", "2", "few", "60"}, st : {"1", "few"}, k : {"1", "2", "half", "all", "more", "0"}, bin : {"0", "1", "7.3"}, spread : {"grid", "cluster"}, entry : {"parse", "file"}]
Files == [op : {"files"}, count : 1..4, parallel : BOOLEAN, n : {"2", "few"}, st : {"few"}, bin : {"0", "1", "7.3"}, spread : {"grid", "cluster"}, form : {"list", "glob", "string"}]
OKfiles(x) == x.form = "string" => x.count = 1
Init == s \in {x \in Read : OKread(x)} \cup Round \cup {x \in Bin : OKbin(x)} \cup Sub \cup {x \in Files : OKfiles(x)} /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
