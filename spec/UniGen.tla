------------------------------- MODULE UniGen -------------------------------
(***************************************************************************)
(* Histories of calls on a uniform chain.  A behaviour fixes a scene and   *)
(* then performs HLEN actions; fr says whether the stored environments are *)
(* those of the tensors, which decides the calls that are legitimate.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS FAM, LS, DMIN, DMAX, HLEN
VARIABLES c, k, h, fr

Names == <<"L","q","D","cls","init","symm","solver","dt","hs","hk","hform","rs">>
V(n) == c[CHOOSE j \in 1..Len(Names) : Names[j] = n]
Dom(n) ==
  CASE Names[n] = "L" -> IF FAM = "utang" THEN {1} ELSE LS
    [] Names[n] = "q" -> {2, 3}
    [] Names[n] = "D" -> DMIN..DMAX
    [] Names[n] = "cls" -> CASE FAM \in {"ucanon", "uobs"} -> {"mps","tdvp"} [] OTHER -> {"tdvp"}
    [] Names[n] = "init" -> CASE FAM = "ucanon" -> {"default","from","lowrank"} [] OTHER -> {"default","from","lowrank"}
    [] Names[n] = "symm" -> {0, 1}
    [] Names[n] = "solver" -> {"brute","arpack","power"}
    [] Names[n] = "dt" -> {"c","r","f"}
    [] Names[n] = "hs" -> {2, 3}
    [] Names[n] = "hk" -> {"array","call"} \cup (IF V("hs") = 2 THEN {"tp"} ELSE {})
    [] Names[n] = "hform" -> IF FAM = "utang" THEN {"generic","sym"} ELSE IF FAM = "uflow" THEN {"generic","one"} ELSE {"generic"}
    [] Names[n] = "rs" -> 1..50

L == V("L")
B01 == {0, 1}
CanonActs ==
  {<<"update", r, t>> : r \in B01, t \in B01}
  \cup {<<"symm", x>> : x \in B01} \cup {<<"solver", x>> : x \in {"brute","arpack","power"}}
  \cup {<<"gauge", j>> : j \in 1..L} \cup {<<"rescale", j>> : j \in 1..L}
  \cup {<<"noise", u>> : u \in B01} \cup {<<"randomize", u>> : u \in B01} \cup {<<"op", j, u>> : j \in 1..L, u \in B01}
  \cup (IF fr THEN {<<"scf">>} \cup {<<x, d, j, g>> : x \in {"rcf","lcf"}, d \in B01, j \in 0..L, g \in B01}
                   \cup {<<"truncate", d, u>> : d \in 1..3, u \in B01} \cup {<<"auto", t, u>> : t \in {2, 4, 9}, u \in B01}
        ELSE {<<"update", r, 0>> : r \in B01})
ObsActs ==
  IF fr THEN {<<"observe", x>> : x \in {"local","three","pair","corr","density","spectrum","length","string","fidelity","align","phase","symmetry","charge","call"}}
             \cup {<<"rcf", 1, 0, 0>>, <<"rcf", 0, 0, 0>>, <<"lcf", 1, 0, 0>>}
  ELSE {<<"update", r, 0>> : r \in B01}
QuenchActs == {<<"quench", x, y>> : x \in {2, 3}, y \in {"array","call"}} \cup {<<"quench", 2, "tp">>}
EnergyActs ==
  {<<"update", r, t>> : r \in B01, t \in B01} \cup QuenchActs
  \cup {<<"gauge", j>> : j \in 1..L} \cup {<<"noise", 0>>} \cup {<<"solver", x>> : x \in {"brute","arpack","power"}} \cup {<<"symm", x>> : x \in B01}
  \cup (IF fr THEN {<<"kl">>, <<"own">>} \cup {<<"ppinv", l, p, x, a>> : l \in B01, p \in B01, x \in {"zero","some"}, a \in {"same","other"}}
                   \cup {<<"pinvmat", p, x>> : p \in B01, x \in {"zero","some"}}
        ELSE {<<"update", r, t>> : r \in B01, t \in B01})
FlowActs ==
  IF fr THEN {<<"flow", s>> : s \in B01} \cup {<<x, d, g>> : x \in {"step","rk4"}, d \in {"re","im","cx"}, g \in B01}
             \cup {<<"grow", d, n, x>> : d \in {"re","im"}, n \in {1, 2, 8}, x \in {0, 1, 2}}
             \cup {<<"cg", n, x>> : n \in 1..3, x \in B01} \cup QuenchActs \cup {<<"gauge", 1>>}
  ELSE {<<"update", r, 0>> : r \in B01}
\* conversions; a change of the site dimension brings a new Hamiltonian with it
Exported == \E j \in 1..Len(h) : h[j][1] = "export"
ConvActs ==
  {<<"update", r, 0>> : r \in B01} \cup {<<"gauge", 1>>, <<"noise", 0>>}
  \cup {<<"setq", d, x>> : d \in {-1, 1}, x \in B01} \cup {<<"expand", d, x>> : d \in {-1, 0, 1, 2}, x \in {"no","re","both"}}
  \cup {<<"frommps", u>> : u \in B01} \cup {<<"blocked", u>> : u \in B01} \cup {<<"quench", 2, x>> : x \in {"array","tp"}}
  \cup (IF Exported
        THEN {<<"import", w, x>> : w \in {"self","new","expand","truncate","expandq","shrinkq","badD","badq","badL"}, x \in {"mem","file"}}
             \cup {<<"fromfile">>, <<"export", 1>>}
        ELSE {<<"export", x>> : x \in 1..8})
\* tangent vectors with a momentum
Mom == {"zero","pi","some"}
TangActs ==
  IF fr THEN {<<"excite", p, x>> : p \in Mom, x \in {"H","full","eigs","eigsv"}} \cup {<<"overlap", p, x>> : p \in Mom, x \in B01}
             \cup {<<"gaugefix", p>> : p \in Mom} \cup {<<"window", x>> : x \in {"one","two","corr"}} \cup QuenchActs
             \cup (IF V("hform") = "sym" THEN {<<"kink", p, x>> : p \in Mom, x \in {"H","full","eigs","eigsv"}} \cup {<<"kinkwindow", x>> : x \in {"one","corr"}} ELSE {})
             \cup {<<"gauge", 1>>}
  ELSE {<<"update", r, 0>> : r \in B01}
OverActs ==
  IF fr THEN {<<"overlap", p, x>> : p \in Mom, x \in B01} \cup {<<"gaugefix", p>> : p \in Mom} \cup {<<"gauge", 1>>}
  ELSE {<<"update", r, 0>> : r \in B01}
Acts == CASE FAM = "utang" -> TangActs [] FAM = "uover" -> OverActs [] FAM = "uconv" -> ConvActs [] FAM = "uenergy" -> EnergyActs [] FAM = "uflow" -> FlowActs [] FAM = "ucanon" -> CanonActs [] FAM = "uobs" -> ObsActs \cup {<<"gauge", 1>>}

After(a) ==
  CASE a[1] \in {"update","scf","rcf","lcf"} -> TRUE
    [] a[1] \in {"noise","randomize","op","truncate","auto"} -> a[Len(a)] = 1
    [] a[1] \in {"gauge","rescale","quench"} -> FALSE
    [] a[1] \in {"export"} -> fr
    [] a[1] = "kink" -> FALSE
    [] a[1] \in {"setq","expand","frommps","blocked","import","fromfile"} -> FALSE
    [] a[1] \in {"step","rk4","grow","cg"} -> TRUE
    [] OTHER -> fr

Rec(s) == [f \in {Names[j] : j \in 1..Len(Names)} \cup {"fam", "hist"} |->
             IF f = "fam" THEN FAM ELSE IF f = "hist" THEN h ELSE s[CHOOSE j \in 1..Len(Names) : Names[j] = f]]
Init == c = <<>> /\ k = 1 /\ h = <<>> /\ fr = FALSE
Next ==
  \/ k <= Len(Names) /\ (\E v \in Dom(k) : c' = Append(c, v)) /\ k' = k + 1 /\ UNCHANGED <<h, fr>>
  \/ k = Len(Names) + 1 /\ Len(h) < HLEN /\ k' = k /\ c' = c
     /\ \E a \in Acts : h' = Append(h, a) /\ fr' = After(a)
  \/ k = Len(Names) + 1 /\ Len(h) = HLEN /\ k' = k + 1 /\ UNCHANGED <<c, h, fr>>
     /\ PrintT(<<"CASE", ToJson(Rec(c))>>)
=============================================================================
