------------------------------- MODULE DynGen -------------------------------
(***************************************************************************)
(* What a user can ask of the high-level drivers (P23): every combination  *)
(* of driver, system, limits, tolerances and schedules.                    *)
(*   steps in thousandths; a tolerance 0 is never reached, 9 always        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS FAM, DMAX, NMAX
VARIABLES c, k

Names == <<"drv","sys","L","q","D","hs","init","cb","n","dt","frac","integ","dyn","Dmax","dDmax","trunc",
           "tol","dt0","auto","target","etol","estep","wait","reset","retB","gap","every","tmax","rs">>
V(n) == c[CHOOSE j \in 1..Len(Names) : Names[j] = n]
Is(s) == V("drv") \in s
Uni == V("sys") = "u"
If(b, S, d) == IF b THEN S ELSE {d}

Dom(n) ==
  CASE Names[n] = "drv" -> CASE FAM = "time" -> {"evolve"} [] FAM = "min" -> {"im", "cg", "gd", "ground"} [] OTHER -> {"ode", "odeold"}
    [] Names[n] = "sys" -> IF Is({"evolve"}) THEN {"u", "f"} ELSE IF Is({"ode", "odeold"}) THEN {"f"} ELSE {"u"}
    [] Names[n] = "L" -> IF Uni THEN {1, 2} ELSE {2, 3, 4}
    [] Names[n] = "q" -> {2, 3}
    [] Names[n] = "D" -> IF Is({"ode", "odeold"}) THEN {2, 9} ELSE 1..DMAX
    [] Names[n] = "hs" -> IF Uni \/ V("L") = 2 THEN {2} ELSE {2, 3}
    [] Names[n] = "init" -> {"random", "low"}
    [] Names[n] = "cb" -> IF Is({"odeold"}) THEN {0, 1} ELSE IF Is({"ode"}) THEN {1} ELSE {0, 1, 2}
    \* iterations, steps
    [] Names[n] = "n" -> CASE Is({"evolve"}) -> 0..6 [] Is({"im", "cg"}) -> 0..NMAX [] Is({"gd"}) -> 0..NMAX
                           [] Is({"ground"}) -> {1, 2, 5, NMAX} [] OTHER -> {1, 3, 60}
    [] Names[n] = "dt" -> CASE Is({"evolve"}) -> {10, 20, 30, 50, 70, 100} [] Is({"odeold"}) -> {50, 100} [] Is({"ode"}) -> {0}
                            [] Is({"im"}) -> {10, 40, 90, 700} [] OTHER -> {10, 40}
    [] Names[n] = "frac" -> If(Is({"evolve"}), {0, 3, 6}, 0)
    [] Names[n] = "integ" -> If(Is({"evolve"}), {"euler", "rk4", "RK4"}, "")
    [] Names[n] = "dyn" -> If(Is({"evolve"}), {0, 1}, 0)
    [] Names[n] = "Dmax" -> If(Is({"evolve"}), {1, 2, 3, 4, 128}, 0)
    [] Names[n] = "dDmax" -> If(Is({"evolve"}), {1, 2, 16}, 0)
    [] Names[n] = "trunc" -> If(Is({"evolve", "im"}), {0, 1}, 1)
    [] Names[n] = "tol" -> If(Is({"im", "cg", "gd", "ground"}), {0, 1, 2, 3, 9}, 0)
    [] Names[n] = "dt0" -> IF Is({"im"}) THEN {-1, 5, 50, 250} ELSE If(Is({"cg"}), {-1, 20, 500}, -1)
    [] Names[n] = "auto" -> If(Is({"im"}), {0, 1}, 1)
    [] Names[n] = "target" -> If(Is({"im", "ground"}), {-1, 0, 1, 2, 3}, -1)
    [] Names[n] = "etol" -> IF Is({"im"}) /\ V("target") > 0 THEN {0, 2, 9} ELSE If(Is({"ground"}), {-1, 2}, 9)
    [] Names[n] = "estep" -> If(Is({"im", "ground"}) /\ V("target") > 0, {1, 2, 128}, 2)
    [] Names[n] = "wait" -> If(Is({"im"}) /\ V("target") > 0, {0, 1, 2, 5}, 5)
    [] Names[n] = "reset" -> If(Is({"cg", "ground"}), {1, 2, 3, 20}, 20)
    [] Names[n] = "retB" -> If(Is({"cg"}), {0, 1}, 0)
    [] Names[n] = "gap" -> If(Is({"gd"}), {0, 1, 2, 5}, 5)
    [] Names[n] = "every" -> If(Is({"gd"}), {0, 1, 2}, 1)
    [] Names[n] = "tmax" -> If(Is({"ode"}), {200, 500}, 0)
    [] Names[n] = "rs" -> 1..50

Rec(s) == [f \in {Names[j] : j \in 1..Len(Names)} \cup {"fam"} |->
             IF f = "fam" THEN FAM ELSE s[CHOOSE j \in 1..Len(Names) : Names[j] = f]]
Init == c = <<>> /\ k = 1
Next ==
  \/ k <= Len(Names) /\ (\E v \in Dom(k) : c' = Append(c, v)) /\ k' = k + 1
  \/ k = Len(Names) + 1 /\ k' = k + 1 /\ UNCHANGED c /\ PrintT(<<"CASE", ToJson(Rec(c))>>)
=============================================================================
