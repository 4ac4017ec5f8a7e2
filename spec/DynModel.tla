------------------------------ MODULE DynModel ------------------------------
(***************************************************************************)
(* The minimisers and the time evolution as algorithms, against every      *)
(* behaviour of the system they drive (norms of the direction falling      *)
(* below the tolerances or rising again, bonds growing less than asked,    *)
(* energies rising).  TLC explores all of it and checks that               *)
(*   - the monitor of Drivers.tla accepts every run (Accepted),            *)
(*   - iterations, bonds and times stay within their limits (Limits),      *)
(*   - every run ends (Ends).                                              *)
(* BUG plants one deviation in the algorithm, which the monitor must then  *)
(* notice: run with BUG # "none", Accepted must be violated.               *)
(***************************************************************************)
EXTENDS Drivers
CONSTANTS DRV, MAXI_, BUG
VARIABLES pc_,   \* what the driver does next
          it_,   \* its iteration counter
          wt_,   \* iterations to wait before bonds may grow
          sy,    \* the system: version of the tensors, bonds, energy, eta flags
          mo,    \* the monitor
          bad_   \* clauses violated so far
vars == <<pc_, it_, wt_, sy, mo, bad_>>

Base == 1000
Pa == CASE DRV = "im" -> [max |-> MAXI_, base |-> Base, dt0 |-> Base, auto |-> 1, target |-> 3, estep |-> 1, wait |-> 2, trunc |-> 1, cb |-> 1, fine |-> 0]
       [] DRV = "cg" -> [max |-> MAXI_, base |-> Base, h0 |-> -1, reset |-> 2, retB |-> 1, cb |-> 1, wait |-> 0]
       [] DRV = "evolve" -> [n |-> MAXI_, dt |-> Base, dt2 |-> 10, integ |-> "rk4", dyn |-> 1, Dmax |-> 3, dDmax |-> 2, trunc |-> 1, cb |-> 1, q |-> <<>>, wait |-> 0]

Sys0 == [v |-> 0, D |-> 1, h |-> 0, lt |-> FALSE, lx |-> FALSE]
Evt(op, s1, s2) == [op |-> op, v0 |-> s1.v, v |-> s2.v, D |-> <<s2.D>>, h |-> s2.h, lt |-> IF s2.lt THEN 1 ELSE 0, lx |-> IF s2.lx THEN 1 ELSE 0]
With_(f, g) == [x \in (DOMAIN f) \cup (DOMAIN g) |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Emit(e, s2) == sy' = s2 /\ bad_' = bad_ \cup Call(e, mo) \cup Direct(e, mo) /\ mo' = Remember(e, mo)

Init == /\ pc_ = "update" /\ it_ = 0 /\ wt_ = 0 /\ sy = Sys0 /\ bad_ = {}
        /\ mo = Start([p |-> Pa, drv |-> DRV, v |-> 0, D |-> <<1>>, h |-> 0])

\* the environment: what an update and a direction reveal
Update == /\ pc_ = "update" /\ pc_' = (IF DRV = "cg" /\ it_ < Pa.max THEN "calcCG" ELSE "calcB")
          /\ \E h \in {-100, 100} :
               LET s2 == [sy EXCEPT !.h = h, !.v = @ + 1] IN
               Emit(With_(Evt("update", sy, s2), [trunc |-> Pa.trunc, restore |-> 1]), s2)
          /\ UNCHANGED <<it_, wt_>>
CgUpdate == /\ pc_ = "update" /\ DRV = "cg" /\ pc_' = (IF it_ < Pa.max THEN "calcCG" ELSE "calcB")
            /\ LET s2 == [sy EXCEPT !.h = -it_ * 100] IN
               Emit(With_(Evt("update", sy, s2), [trunc |-> 0, restore |-> IF it_ % Pa.reset = 0 \/ it_ = Pa.max \/ BUG = "cf-within-run" THEN 1 ELSE 0]), s2)
            /\ UNCHANGED <<it_, wt_>>
CalcB == /\ pc_ = "calcB" /\ pc_' = "cb"
         /\ \E lt \in BOOLEAN, lx \in BOOLEAN : (lt => lx) /\
              LET s2 == [sy EXCEPT !.lt = lt, !.lx = lx] IN Emit(Evt("calcB", sy, s2), s2)
         /\ UNCHANGED <<it_, wt_>>
GetCG == /\ pc_ = "calcCG" /\ pc_' = "cb"
          /\ \E lt \in BOOLEAN, h \in {500, 2000} :
               LET s2 == [sy EXCEPT !.lt = lt]
                   guess == IF it_ = 0 THEN 15 * Base ELSE IF it_ = 1 THEN Base ELSE mo.cg.h
                   rs == IF BUG = "never-reset" THEN it_ = 0 ELSE it_ % Pa.reset = 0 IN
               Emit(With_(Evt("calcCG", sy, s2), [reset |-> IF rs THEN 1 ELSE 0, init |-> Base, h |-> guess, bdot |-> mo.cg.bdot, out |-> <<7, h>>,
                                                BCG |-> IF mo.cg.n = 0 THEN "none" ELSE IF BUG = "old-gradient" THEN "other" ELSE "last",
                                                Bg |-> IF mo.cg.n = 0 THEN "none" ELSE "last"]), s2)
          /\ UNCHANGED <<it_, wt_>>
Cb == /\ pc_ = "cb" /\ pc_' = "decide"
      /\ LET e == With_(Evt("cb", sy, sy), [same |-> 1, i |-> IF BUG = "cb-index" THEN it_ + 1 ELSE it_,
                                         tau |-> IF BUG = "cb-time" THEN 0 ELSE mo.total[1], hs |-> mo.cg.h]) IN
         IF BUG = "skip-cb" /\ it_ = 2 THEN UNCHANGED <<sy, mo, bad_>> ELSE Emit(e, sy)
      /\ UNCHANGED <<it_, wt_>>
Stop == CASE DRV = "im" -> it_ = Pa.max \/ (sy.lt /\ (BUG = "stop-early" \/ sy.D = Pa.target) /\ (BUG = "no-wait" \/ wt_ = 0))
          [] DRV = "cg" -> it_ = Pa.max \/ (sy.lt /\ BUG # "ignores-tol")
          [] OTHER -> it_ = Pa.n
Decide == pc_ = "decide" /\ pc_' = (IF Stop THEN "ret" ELSE "step") /\ UNCHANGED <<it_, wt_, sy, mo, bad_>>
StepEv(op, s2, x) == With_(Evt(op, sy, s2), With_([B |-> "last", dyn |-> 0, Dmax |-> 128, dDmax |-> 16, tol |-> 1], x))
Next_(s1) == [s1 EXCEPT !.v = @ + 1]
ImMove == /\ pc_ = "step" /\ DRV = "im"
          /\ LET grow == sy.D < Pa.target /\ sy.lx /\ (wt_ = 0 \/ BUG = "no-wait")
                 dt == IF mo.nh >= 2 /\ mo.h > mo.hp + 64 /\ BUG # "ignores-rise" THEN Base \div 100 ELSE IF mo.dt = 0 THEN Base ELSE mo.dt IN
             \E g \in (IF grow THEN {0, 1} ELSE {0}) :
               LET s2 == Next_([sy EXCEPT !.D = @ + (IF BUG = "over-limit" /\ grow THEN 3 ELSE g)]) IN
               /\ Emit(StepEv("step", s2, [dt |-> <<dt, 0>>, dyn |-> IF grow THEN 1 ELSE 0, Dmax |-> Pa.target, dDmax |-> Pa.estep]), s2)
               /\ wt_' = IF grow THEN Pa.wait ELSE Max2(wt_ - 1, 0)
          /\ pc_' = (IF BUG = "no-update" THEN "calcB" ELSE "update") /\ it_' = it_ + 1
CgMove == /\ pc_ = "step" /\ DRV = "cg"
          /\ Emit(StepEv("step", Next_(sy), [dt |-> <<mo.cg.h, 0>>]), Next_(sy))
          /\ pc_' = "update" /\ it_' = it_ + 1 /\ wt_' = wt_
EvMove == /\ pc_ = "step" /\ DRV = "evolve"
          /\ IF sy.D < Pa.Dmax /\ BUG # "never-grows"
             THEN \E g \in 0..2 : sy.D + g <= Pa.Dmax /\
                  Emit(StepEv("step", Next_([sy EXCEPT !.D = @ + g]), [dt |-> <<0, 10>>, dyn |-> 1, Dmax |-> Pa.Dmax, dDmax |-> Pa.dDmax]), Next_([sy EXCEPT !.D = @ + g]))
                  /\ pc_' = "middle"
             ELSE Emit(StepEv("rk4", Next_(sy), [dt |-> <<0, Pa.dt>>]), Next_(sy)) /\ pc_' = "update"
          /\ it_' = (IF pc_' = "middle" THEN it_ ELSE it_ + 1) /\ wt_' = wt_
EvMiddle == /\ pc_ = "middle" /\ pc_' = "rest" /\ Emit(With_(Evt("update", sy, sy), [trunc |-> Pa.trunc, restore |-> 1]), sy) /\ UNCHANGED <<it_, wt_>>
EvRest == /\ pc_ = "rest" /\ pc_' = "update" /\ it_' = it_ + 1 /\ wt_' = wt_
          /\ Emit(StepEv("rk4", Next_(sy), [B |-> "none", dt |-> <<0, IF BUG = "full-step" THEN Pa.dt + 200 ELSE Pa.dt - 10>>]), Next_(sy))
Ret == /\ pc_ = "ret" /\ pc_' = "done"
       /\ Emit(With_(Evt("ret", sy, sy), [same |-> 1, n |-> it_ + 1, tau |-> mo.total[1], dtau |-> IF it_ = 0 THEN Base ELSE mo.dt,
                                       h0 |-> IF it_ = 0 THEN 15 * Base ELSE mo.cg.first, Bg |-> "last"]), sy)
       /\ UNCHANGED <<it_, wt_>>
Done == pc_ = "done" /\ UNCHANGED vars
Next == (DRV # "cg" /\ Update) \/ CgUpdate \/ CalcB \/ GetCG \/ Cb \/ Decide \/ ImMove \/ CgMove \/ EvMove \/ EvMiddle \/ EvRest \/ Ret \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Accepted == bad_ = {}
Limits == /\ it_ <= MAXI_ /\ (DRV = "im" => sy.D <= Pa.target) /\ (DRV = "evolve" => sy.D <= Pa.Dmax)
          /\ (pc_ = "done" /\ DRV = "evolve" => mo.total = <<0, Pa.n * Pa.dt>>)
          /\ (pc_ = "done" /\ DRV # "evolve" => it_ = MAXI_ \/ sy.lt)
Ends == <>(pc_ = "done")
=============================================================================
