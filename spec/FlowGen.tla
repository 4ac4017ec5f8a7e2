------------------------------ MODULE FlowGen -------------------------------
(***************************************************************************)
(* Histories of a finite chain with a Hamiltonian (P09 - P12): the scene   *)
(* fixes sites, bonds, the kind of Hamiltonian, canonical form and gauge;  *)
(* fresh says whether everything derived from the tensors is up to date,   *)
(* which every evolution step and query requires.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS FAM, NMIN, NMAX, HLEN, DIM
VARIABLES c, k, h, fresh, gf

QN == <<"q1","q2","q3","q4","q5","q6","q7","q8">>
DN == <<"d1","d2","d3","d4","d5","d6","d7">>
NN == IF NMAX > 5 THEN NMAX ELSE 5
Names == <<"N">> \o SubSeq(QN, 1, NN) \o SubSeq(DN, 1, NN - 1) \o <<"hs","hk","cf","gf","init","dt","rs">>
V(n) == c[CHOOSE j \in 1..Len(Names) : Names[j] = n]
RECURSIVE PQ(_)
PQ(j) == IF j = 0 THEN 1 ELSE PQ(j - 1) * V(QN[j])
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
QDom(j) == IF j > V("N") THEN {0}
  ELSE {q \in (IF j = 2 THEN {1, 2, 3} ELSE {2, 3}) : PQ(j - 1) * q * Pow2(V("N") - j) <= DIM}
DDom(j) == IF j >= V("N") THEN {1} ELSE IF NMAX > 5 THEN {1, 2, 3, 4, 6, 8} ELSE 1..4
Pos(S, n) == IF \E j \in 1..Len(S) : S[j] = n THEN CHOOSE j \in 1..Len(S) : S[j] = n ELSE 0

Dom(n) ==
  CASE Names[n] = "N" -> NMIN..NMAX
    [] Pos(QN, Names[n]) > 0 -> QDom(Pos(QN, Names[n]))
    [] Pos(DN, Names[n]) > 0 -> DDom(Pos(DN, Names[n]))
    [] Names[n] = "hs" -> IF V("N") = 2 THEN {2} ELSE {2, 3}
    [] Names[n] = "hk" -> {"array", "call", "none"}
    [] Names[n] = "cf" -> IF FAM = "split" THEN {"right"} ELSE {"right", "left"}
    [] Names[n] = "gf" -> IF FAM = "split" THEN {"right"} ELSE {"right", "left"}
    [] Names[n] = "init" -> CASE FAM = "flow" -> {"good", "good1", "full", "lowrank", "product", "default"}
                              [] FAM = "grow" -> {"good", "good1", "product", "small"}
                              [] FAM = "split" -> {"good", "good1", "full", "small", "product"}
                              [] OTHER -> {"good", "good1", "full"}
    [] Names[n] = "dt" -> {"c", "r"}
    [] Names[n] = "rs" -> 1..50

N == V("N")
B01 == {0, 1}
Times == {"im", "im-", "re", "re-", "cx"}       \* imaginary, real and complex time
Common ==
  {<<"cf", x>> : x \in (IF FAM = "split" THEN {} ELSE {"right","left"})}
  \cup {<<"gf", x>> : x \in (IF FAM = "split" THEN {} ELSE {"right","left"})}
  \cup {<<"update", r, n>> : r \in (IF FAM = "split" THEN {1} ELSE B01), n \in (IF FAM \in {"split", "diss"} THEN {1} ELSE B01)}
  \cup {<<"noise">>, <<"quench">>} \cup {<<"op", n>> : n \in 1..N} \cup {<<"gauge", n>> : n \in 1..(N - 1)}
FlowActs == {<<"flow", s>> : s \in B01} \cup {<<"flow_n">>, <<"terms">>}
  \cup (IF gf = "right" THEN {<<"flow_mpo">>} ELSE {})
StepActs == {<<"step", t, w>> : t \in Times, w \in {"plain", "given", "save", "Y"}}
  \cup {<<"rk4", t, w>> : t \in Times, w \in B01}
  \cup {<<"cg", w, x>> : w \in B01, x \in B01}
GrowActs == {<<"grow", t, dd, dm, tol>> : t \in Times, dd \in {1, 2, 16}, dm \in {0, 2, 3, 4}, tol \in {14, 2}}
Kinds == {"local", "mpo", "both"}
SplitActs == {<<"split", t, w>> : t \in {"im", "im-", "re", "re-"}, w \in Kinds} \cup {<<"dmrg", w>> : w \in Kinds}
\* split_step.evolve_split: one-site (0), two-site (1), two-site where bonds can grow (2);
\* limit 99: none; steps
ESplitActs == {<<"esplit", t, w, two, dm, n>> : t \in {"im", "re", "re-"}, w \in Kinds, two \in {0}, dm \in {99}, n \in {1, 2}}
  \cup {<<"esplit", t, "local", two, dm, n>> : t \in {"im", "re", "re-"}, two \in {1, 2}, dm \in {2, 3, 99}, n \in {1, 2}}
  \cup {<<"edmrg", "local", two, dm>> : two \in {0, 1, 2}, dm \in {2, 3, 99}} \cup {<<"edmrg", w, 0, 99>> : w \in {"mpo", "both"}}
\* a stochastic step of an open system with time 1/t, and the statistics of its noise
DissActs == {<<"diss", t, w, x>> : t \in {16, 64}, w \in {"plain", "save", "Y"}, x \in 0..3} \cup {<<"noisestat", t>> : t \in {0, 1, 64}} \cup {<<"terms">>}
Query == CASE FAM = "flow" -> FlowActs [] FAM = "step" -> StepActs [] FAM = "grow" -> GrowActs [] FAM = "diss" -> DissActs [] FAM = "split" -> SplitActs \cup ESplitActs

Acts == IF fresh THEN Query ELSE IF FAM = "split" THEN {<<"update", 1, 1>>}
        ELSE IF FAM = "diss" THEN {<<"update", r, 1>> : r \in B01} ELSE {<<"update", r, n>> : r \in B01, n \in B01}
\* a query or step from a fresh object, or (one time in three) some other change
Moves == Acts \cup (IF Len(h) % 3 = 1 THEN Common ELSE {})
After(a) ==
  CASE a[1] = "update" -> <<TRUE, gf>>
    [] a[1] = "gf" -> <<FALSE, a[2]>>
    [] a[1] \in {"cf", "flow", "flow_n", "terms", "flow_mpo"} -> <<fresh, gf>>
    [] a[1] = "noisestat" -> <<fresh, gf>>
    [] a[1] \in {"split", "dmrg"} -> <<TRUE, gf>>
    [] a[1] \in {"noise", "op", "cg"} -> <<TRUE, gf>>
    [] OTHER -> <<FALSE, gf>>

Rec(s) == [f \in {Names[j] : j \in 1..Len(Names)} \cup {"fam", "hist"} |->
             IF f = "fam" THEN FAM ELSE IF f = "hist" THEN h ELSE s[CHOOSE j \in 1..Len(Names) : Names[j] = f]]
Init == c = <<>> /\ k = 1 /\ h = <<>> /\ fresh = FALSE /\ gf = ""
Next ==
  \/ k <= Len(Names) /\ (\E v \in Dom(k) : c' = Append(c, v)) /\ k' = k + 1 /\ UNCHANGED <<h, fresh, gf>>
  \/ k = Len(Names) + 1 /\ k' = k + 1 /\ gf' = V("gf") /\ UNCHANGED <<c, h, fresh>>
  \/ k = Len(Names) + 2 /\ Len(h) < HLEN /\ k' = k /\ c' = c
     /\ \E a \in Moves : h' = Append(h, a) /\ fresh' = After(a)[1] /\ gf' = After(a)[2]
  \/ k = Len(Names) + 2 /\ Len(h) = HLEN /\ k' = k + 1 /\ UNCHANGED <<c, h, fresh, gf>>
     /\ PrintT(<<"CASE", ToJson(Rec(c))>>)
=============================================================================
