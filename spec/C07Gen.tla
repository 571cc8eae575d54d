------------------------------- MODULE C07Gen -------------------------------
(* Scenario space of C07: histories of outcomes of tries on every chain class, complete runs on data (direct and through
   the front end), and long runs compared with prior sampling *)
EXTENDS TraceIO, TLC, Integers, Sequences
VARIABLES s, out
Thorough == EnvVar("VP_TIER") = "thorough"
Apis == {"mh", "transd", "mtry", "mtrytransd"}
Seqs(vals, n) == [1..n -> vals]
Hist == [op : {"hist"}, api : {"mh", "transd"}, events : {1, 2}, dc : {FALSE}, L : 0..2, M : {1, 2, 3, 5}, window : {1, 1000}, low : BOOLEAN, seq : Seqs({0, 1}, IF Thorough THEN 8 ELSE 6)]
        \cup [op : {"hist"}, api : {"mtry", "mtrytransd"}, events : {1, 2}, dc : {FALSE}, L : 0..2, M : {1, 2, 3, 5}, window : {1, 1000}, low : BOOLEAN, seq : Seqs(0..3, IF Thorough THEN 5 ELSE 4)]
        \cup [op : {"hist"}, api : Apis, events : {1, 2}, dc : {TRUE}, L : 0..1, M : {2, 4}, window : {1000}, low : BOOLEAN, seq : Seqs({0, 2}, 5)]
\* longer histories at random
Long == [op : {"hist"}, api : Apis, events : {1, 2, 3}, dc : BOOLEAN, L : {0, 4, 11}, M : {20, 37}, window : {1, 5, 1000}, low : BOOLEAN, seq : {<< >>}, rate : {1, 4, 8}]
\* short windows narrow the proposals to nothing while every try is rejected: then only with tries of zero likelihood
OKLong(x) == x.low <=> x.window = 1000
OKHist(x) ==
  /\ x.low => x.L + x.M > 2
  /\ Thorough \/ (x.window = 1 => (x.events = 1 /\ ~x.low))
  /\ Thorough \/ (x.events = 2 => (x.M \in {2, 3} /\ x.L # 2))
  /\ Thorough \/ (x.low => x.M # 1)
Run == [op : {"run"}, api : Apis, model : {"dc", "mt"}, start : {"random", "grid"}, data : {"broad", "peaked", "hard"}, locations : {0, 3}, L : {0, 5, 30}, M : {1, 40}, convert : BOOLEAN]
OKRun(x) == /\ x.start = "random" \/ x.L # 0
            \* a chain may look for a first possible source for ever
            /\ (x.data = "hard") => x.start = "grid"
Front == [op : {"front"}, algorithm : {"mcmc", "transdmcmc"}, parallel : BOOLEAN, dc : BOOLEAN, events : {1, 2}, joint : BOOLEAN, number : {0, 1}, L : {0, 10}, M : {5, 60}]
OKFront(x) == /\ x.joint => x.events = 2
              /\ Thorough \/ ((x.L = 0) = (x.M = 5))
Post == [op : {"post"}, api : Apis, model : {"dc", "mt"}, data : {"broad", "peaked", "locations"}]
OKPost(x) == /\ (x.api \in {"transd", "mtrytransd"}) => x.model = "mt"
             /\ Thorough \/ (x.api \in {"mtry", "mtrytransd"}) \/ (x.api \in {"mh", "transd"} /\ (x.data = IF x.model = "dc" THEN "peaked" ELSE "broad"))
Scenarios == {x \in Hist : OKHist(x)} \cup {x \in Long : OKLong(x)} \cup {x \in Run : OKRun(x)} \cup {x \in Front : OKFront(x)} \cup {x \in Post : OKPost(x)}
Init == s \in Scenarios /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
