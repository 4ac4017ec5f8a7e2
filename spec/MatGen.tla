------------------------------- MODULE MatGen -------------------------------
(***************************************************************************)
(* Scenes for the special matrix objects, the matrix helpers, factor/root/ *)
(* null-space helpers and the Krylov exponential.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS FAM, NMAX
VARIABLES c, k

Names ==
  CASE FAM = "special" -> <<"D","m","ka","kb","kc","dta","dtb","ord","rs">>
    [] FAM = "factor"  -> <<"D","rk","dt","lower","evd","inv","rot","rs">>
    [] FAM = "root"    -> <<"D","rk","kind","dt","rs">>
    [] FAM = "null"    -> <<"n","m","rk","dt","rs">>
    [] FAM = "vsh"     -> <<"q","D0","D1","rk","dt","wt","rs">>
    [] FAM = "expm"    -> <<"n","m","mat","t","tol","op","w","vec","rs">>

V(n) == c[CHOOSE j \in 1..Len(Names) : Names[j] = n]
Dom(n) ==
  CASE Names[n] \in {"rs"} -> 1..200
    [] Names[n] \in {"ka","kb","kc","kind","wt"} -> {"dense","eye","diag"}
    [] Names[n] \in {"dta","dtb","dt"} -> {"c","r"}
    [] Names[n] = "ord" -> {"C","F"}
    [] Names[n] = "D" -> 1..NMAX
    [] Names[n] = "n" /\ FAM = "expm" -> 2..(2 * NMAX)
    [] Names[n] = "n" -> 1..NMAX
    [] Names[n] = "m" /\ FAM = "expm" -> {0} \cup {j \in {1, 2, 3, 5} : j < V("n")}
    [] Names[n] = "m" -> 1..NMAX
    [] Names[n] = "rk" /\ FAM = "null" -> 0..(IF V("n") < V("m") THEN V("n") ELSE V("m"))
    [] Names[n] = "rk" /\ FAM = "vsh" -> {0, 1}
    [] Names[n] = "rk" -> 0..V("D")
    [] Names[n] \in {"lower","evd","inv","rot"} -> {0, 1}
    [] Names[n] = "q" -> 1..3
    [] Names[n] \in {"D0","D1"} -> 1..NMAX
    [] Names[n] = "mat" -> {"herm","antiherm","general","block","nilpotent"}
    [] Names[n] = "t" -> {-20, -10, -3, 0, 1, 5, 10, 30}        \* tenths
    [] Names[n] = "tol" -> {6, 8, 10}
    [] Names[n] = "op" -> {"array","matvec"}
    [] Names[n] = "w" -> {0, 1}
    [] Names[n] = "vec" -> {"random","eigen","unit"}

Rec(s) == [f \in {Names[j] : j \in 1..Len(Names)} \cup {"fam"} |->
             IF f = "fam" THEN FAM ELSE s[CHOOSE j \in 1..Len(Names) : Names[j] = f]]
Init == c = <<>> /\ k = 1
Next ==
  \/ k <= Len(Names) /\ (\E v \in Dom(k) : c' = Append(c, v)) /\ k' = k + 1
  \/ k = Len(Names) + 1 /\ k' = k + 1 /\ UNCHANGED c /\ PrintT(<<"CASE", ToJson(Rec(c))>>)
=============================================================================
