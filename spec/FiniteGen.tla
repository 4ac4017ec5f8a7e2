----------------------------- MODULE FiniteGen ------------------------------
(***************************************************************************)
(* Histories of calls on a finite chain (P04 - P08).  A behaviour fixes a  *)
(* scene (sites, dimensions, bonds, starting state) and then performs HLEN *)
(* actions; the abstract state <<fl, fr>> (are the stored left and right   *)
(* environments those of the tensors?) says which calls are legitimate.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS FAM, NMIN, NMAX, HLEN, DIM
VARIABLES c, k, h, fl, fr

QN == <<"q1","q2","q3","q4","q5","q6","q7","q8">>
DN == <<"d1","d2","d3","d4","d5","d6","d7">>
NN == IF NMAX > 5 THEN NMAX ELSE 5
Names == <<"N">> \o SubSeq(QN, 1, NN) \o SubSeq(DN, 1, NN - 1) \o <<"cls","init","cf","dt","rs">>
V(n) == c[CHOOSE j \in 1..Len(Names) : Names[j] = n]
RECURSIVE PQ(_)
PQ(j) == IF j = 0 THEN 1 ELSE PQ(j - 1) * V(QN[j])
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
QDom(j) == IF j > V("N") THEN {0}
  ELSE {q \in (IF j = 2 THEN {1, 2, 3} ELSE {2, 3}) : PQ(j - 1) * q * Pow2(V("N") - j) <= DIM}
DDom(j) == IF j >= V("N") THEN {1} ELSE IF NMAX > 5 THEN {1, 2, 3, 4, 6, 8} ELSE 1..4
Pos(S, n) == IF \E j \in 1..Len(S) : S[j] = n THEN CHOOSE j \in 1..Len(S) : S[j] = n ELSE 0

Dom(n) ==
  CASE Names[n] = "N" -> NMIN..NMAX
    [] Pos(QN, Names[n]) > 0 -> QDom(Pos(QN, Names[n]))
    [] Pos(DN, Names[n]) > 0 -> DDom(Pos(DN, Names[n]))
    [] Names[n] = "cls" -> IF V("N") >= 2 THEN {"mps","mps","tdvp"} ELSE {"mps"}
    [] Names[n] = "init" -> CASE FAM = "obs" -> {"random","set","from"}
                              [] FAM = "trunc" -> {"random","lowrank","from"}
                              [] OTHER -> {"default","random","product","set","from","lowrank"}
    [] Names[n] = "cf" -> {"right","left"}
    [] Names[n] = "dt" -> {"c","r"}
    [] Names[n] = "rs" -> 1..50

N == V("N")
B01 == {0, 1}
\* actions: <<name, arguments>>, together with the environments they leave behind
CanonActs ==
  {<<"cf", x>> : x \in {"right","left"}}
  \cup {<<"update", r, n>> : r \in B01, n \in B01}
  \cup {<<"rcf", qr, d, u, n>> : qr \in B01, d \in B01, u \in B01, n \in B01}
  \cup {<<"lcf", qr, d, u, n>> : qr \in B01, d \in B01, u \in B01, n \in B01}
  \cup {<<"noise", u>> : u \in B01} \cup {<<"randomize", u>> : u \in B01}
  \cup {<<"gauge", n>> : n \in 1..(N - 1)} \cup {<<"rescale", n>> : n \in 1..N}
  \cup {<<"calc_l">>, <<"calc_r">>}
  \cup (IF fl THEN {<<"renorm", u>> : u \in (IF fr THEN B01 ELSE {0})} ELSE {})
TruncActs ==
  {<<"update", 1, n>> : n \in B01} \cup {<<"update_trunc", a>> : a \in B01}
  \cup {<<"cf", x>> : x \in {"right","left"}}
  \cup {<<"trunc1", n, d, u>> : n \in 1..(N - 1), d \in 1..3, u \in B01}
  \cup {<<"truncall", d>> : d \in 1..3}
  \cup {<<"auto", e, u>> : e \in {3, 6, 10}, u \in B01}
  \cup (IF fl /\ fr THEN {<<"spectrum">>} ELSE {})
  \cup {<<"noise", 1>>, <<"update", 0, 1>>} \cup {<<"mixed", n>> : n \in 1..(N - 1)}
ObsActs ==
  IF fl /\ fr THEN {<<"observe", x>> : x \in {"local","pair","mpo","density","corr","spectrum","call"}}
  ELSE {<<"update", 1, 1>>, <<"update", 0, 1>>}
  \cup {<<"cf", x>> : x \in {"right","left"}}
ApplyActs ==
  {<<"op", n, kd, u>> : n \in 1..N, kd \in {"array","call","proj"}, u \in B01}
  \cup {<<"mpo", a, b, u>> : a \in 1..N, b \in 1..N, u \in B01}
  \cup {<<"product", u>> : u \in B01} \cup {<<"set", u>> : u \in B01} \cup {<<"from", u>> : u \in B01}
  \cup {<<"inner">>, <<"noise", 1>>, <<"update", 1, 1>>, <<"bad">>, <<"maxd">>}
IoActs ==
  {<<"op", n, "array", 1>> : n \in 1..N} \cup {<<"update", 1, 1>>, <<"noise", 1>>}
  \cup {<<"save_load", u, w, d>> : u \in B01, w \in {"path","file"}, d \in 1..4}
  \cup {<<"aliasing", w>> : w \in {"set","from"}}
Acts == CASE FAM = "canon" -> CanonActs [] FAM = "trunc" -> TruncActs [] FAM = "obs" -> ObsActs
          [] FAM = "apply" -> {a \in ApplyActs : a[1] # "mpo" \/ a[2] <= a[3]} [] FAM = "io" -> IoActs

\* (is l fresh?, is r fresh?) after an action
After(a) ==
  CASE a[1] \in {"update","update_trunc","truncall","save_load","mixed"} -> <<TRUE, TRUE>>
    [] a[1] \in {"noise","randomize","set","from","product"} -> <<a[2] = 1, a[2] = 1>>
    [] a[1] \in {"op","mpo"} -> <<a[Len(a)] = 1, a[Len(a)] = 1>>
    [] a[1] \in {"trunc1","auto"} -> <<a[Len(a)] = 1, a[Len(a)] = 1>>
    [] a[1] = "rcf" -> <<a[3] = 1 \/ a[4] = 1, TRUE>>
    [] a[1] = "lcf" -> <<TRUE, a[3] = 1 \/ a[4] = 1>>
    [] a[1] \in {"gauge","rescale"} -> <<FALSE, FALSE>>
    [] a[1] = "calc_l" -> <<TRUE, fr>>
    [] a[1] = "calc_r" -> <<fl, TRUE>>
    [] a[1] = "renorm" -> <<TRUE, a[2] = 1>>
    [] OTHER -> <<fl, fr>>

Rec(s) == [f \in {Names[j] : j \in 1..Len(Names)} \cup {"fam", "hist"} |->
             IF f = "fam" THEN FAM ELSE IF f = "hist" THEN h ELSE s[CHOOSE j \in 1..Len(Names) : Names[j] = f]]
Init == c = <<>> /\ k = 1 /\ h = <<>> /\ fl = FALSE /\ fr = FALSE
Next ==
  \/ k <= Len(Names) /\ (\E v \in Dom(k) : c' = Append(c, v)) /\ k' = k + 1 /\ UNCHANGED <<h, fl, fr>>
  \/ k = Len(Names) + 1 /\ Len(h) < HLEN /\ k' = k /\ c' = c
     /\ \E a \in Acts : h' = Append(h, a) /\ fl' = After(a)[1] /\ fr' = After(a)[2]
  \/ k = Len(Names) + 1 /\ Len(h) = HLEN /\ k' = k + 1 /\ UNCHANGED <<c, h, fl, fr>>
     /\ PrintT(<<"CASE", ToJson(Rec(c))>>)
=============================================================================
