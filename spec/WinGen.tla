------------------------------- MODULE WinGen -------------------------------
(***************************************************************************)
(* Histories of calls on a window between two uniform chains.  fr says     *)
(* whether the stored environments are those of the tensors.               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS FAM, DMAX, NMAX, HLEN
VARIABLES c, k, h, fr

Names == <<"LL","LR","q","DL","DR","N","init","cls","dt","hs","hform","solver","rs">>
V(n) == c[CHOOSE j \in 1..Len(Names) : Names[j] = n]
Dom(n) ==
  CASE Names[n] = "LL" -> {1, 2, 3}
    [] Names[n] = "LR" -> {1, 2, 3}
    [] Names[n] = "q" -> {2, 3}
    [] Names[n] \in {"DL", "DR"} -> 1..DMAX
    [] Names[n] = "N" -> 2..NMAX
    [] Names[n] = "init" -> {"bulk", "two", "tensors", "function"}
    [] Names[n] = "cls" -> IF FAM = "win" THEN {"mps", "tdvp"} ELSE {"tdvp"}
    [] Names[n] = "dt" -> {"c", "r"}
    [] Names[n] = "hs" -> {2, 3}
    [] Names[n] = "hform" -> {"bulk", "impurity", "call"}
    [] Names[n] = "solver" -> {"brute", "arpack", "power"}
    [] Names[n] = "rs" -> 1..50

B01 == {0, 1}
Updates == {<<"update", r, n>> : r \in B01, n \in B01}
Growth == {<<"growl", m>> : m \in 1..2} \cup {<<"growr", m>> : m \in 1..2}
Looks == {"local","three","pair","corr","string","mpo","density","spectrum","overlap","get"}
Saved == \E j \in 1..Len(h) : h[j][1] = "save"
WinActs ==
  Updates \cup Growth \cup {<<"poke", j>> : j \in 1..4} \cup {<<"centre", j>> : j \in {1, 3}} \cup {<<"op", j, u>> : j \in 1..4, u \in B01}
  \cup {<<"gauge", j>> : j \in 0..4}
  \cup (IF fr THEN {<<"renorm">>} \cup {<<"save", j>> : j \in 1..4} \cup {<<"observe", "overlap", j>> : j \in 1..2} \cup {<<"observe", x>> : x \in Looks} ELSE Updates)
  \cup (IF Saved THEN {<<"load", x, j>> : x \in {"self", "new", "grow", "file"}, j \in 1..3} ELSE {})
FlowActs ==
  Growth \cup {<<"update", 1, 0>>, <<"poke", 1>>, <<"poke", 2>>, <<"centre", 1>>, <<"quench">>}
  \cup (IF fr THEN {<<"flow", j>> : j \in 1..4} \cup {<<x, d>> : x \in {"step", "rk4"}, d \in {"re", "im"}} \cup {<<"given", "re">>}
                   \cup {<<"grow", d, n>> : d \in {"re", "im"}, n \in {1, 2, 8}}
        ELSE {<<"update", 1, 0>>})
Acts == IF FAM = "win" THEN WinActs ELSE FlowActs
After(a) ==
  CASE a[1] \in {"update", "step", "given", "rk4", "grow"} -> TRUE
    [] a[1] = "load" -> TRUE
    [] a[1] \in {"growl", "growr", "poke", "centre", "gauge", "quench"} -> FALSE
    [] a[1] = "op" -> a[3] = 1
    [] OTHER -> fr

Rec(s) == [f \in {Names[j] : j \in 1..Len(Names)} \cup {"fam", "hist"} |->
             IF f = "fam" THEN FAM ELSE IF f = "hist" THEN h ELSE s[CHOOSE j \in 1..Len(Names) : Names[j] = f]]
Init == c = <<>> /\ k = 1 /\ h = <<>> /\ fr = TRUE
Next ==
  \/ k <= Len(Names) /\ (\E v \in Dom(k) : c' = Append(c, v)) /\ k' = k + 1 /\ UNCHANGED <<h, fr>>
  \/ k = Len(Names) + 1 /\ Len(h) < HLEN /\ k' = k /\ c' = c
     /\ \E a \in Acts : h' = Append(h, a) /\ fr' = After(a)
  \/ k = Len(Names) + 1 /\ Len(h) = HLEN /\ k' = k + 1 /\ UNCHANGED <<c, h, fr>>
     /\ PrintT(<<"CASE", ToJson(Rec(c))>>)
=============================================================================
