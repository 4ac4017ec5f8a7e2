---------------------------- MODULE ContractGen -----------------------------
(***************************************************************************)
(* Scenes for the contraction specification: three neighbouring ket and    *)
(* bra sites, their dimensions, the kind of argument matrices, the storage *)
(* type, the sparsity of the operators.  A behaviour chooses one scene     *)
(* field by field; TLC explores behaviours at random (-simulate) or        *)
(* exhaustively on a bounded domain.  EXT = 1: scenes for the compiled     *)
(* modules, which take complex tensors: v the translation to C (made now   *)
(* from the sources, or the one that is distributed), th threads.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS QS, DS, EXT
VARIABLES c, k

Names == <<"q1","q2","q3","D0","D1","D2","D3","E0","E1","E2","E3","xk","dt","ord","sp","m0","m1","tp">>
         \o (IF EXT = 1 THEN <<"v","th">> ELSE <<>>) \o <<"rs">>

Dom(n) ==
  CASE Names[n] \in {"q1","q2","q3"} -> QS
    [] Names[n] \in {"D0","D1","D2","D3"} -> DS
    \* special argument matrices (identity, diagonal) are square
    [] Names[n] \in {"E0","E1","E2","E3"} -> DS
    [] Names[n] = "xk" -> IF \A d \in 0..3 : c[4 + d] = c[8 + d] THEN {"dense","eye","diag"} ELSE {"dense"}
    [] Names[n] = "dt" -> IF EXT = 1 THEN {"c"} ELSE {"c", "c", "r"}
    [] Names[n] = "ord" -> {"C", "F"}
    [] Names[n] = "sp" -> {0, 1}
    [] Names[n] \in {"m0","m1"} -> 1..3
    [] Names[n] = "tp" -> 1..3
    [] Names[n] = "v" -> {"made", "dist"}
    [] Names[n] = "th" -> 1..4
    [] Names[n] = "rs" -> 1..1000

Init == c = <<>> /\ k = 1
Rec(s) == [f \in {Names[j] : j \in 1..Len(Names)} |-> s[CHOOSE j \in 1..Len(Names) : Names[j] = f]]
\* equal ket and bra dimensions are chosen more often than unequal ones
Choose(n) ==
  \/ \E v \in Dom(n) : c' = Append(c, v)
  \/ Names[n] = "E0" /\ c' = c \o SubSeq(c, 4, 7)
  \/ Names[n] = "E0" /\ c[4] = c[4] /\ \E j \in 1..2 : c' = c \o SubSeq(c, 4, 7)
Next ==
  \/ k <= Len(Names) /\ Choose(k) /\ k' = Len(c') + 1
  \* a completed scene is written out when it is reached
  \/ k = Len(Names) + 1 /\ k' = k + 1 /\ UNCHANGED c /\ PrintT(<<"CASE", ToJson(Rec(c))>>)
=============================================================================
