------------------------------ MODULE Drivers -------------------------------
(***************************************************************************)
(* The high-level drivers of dynamics.py as observed from the system they  *)
(* drive (P23): a monitor over the calls they make on it.                  *)
(*                                                                         *)
(* Events, in the order they happen (e.op):                                *)
(*   update    environments are brought up to date (may change the gauge)  *)
(*   calcB     direction of evolution (and its norm eta)                   *)
(*   calcCG    conjugate-gradient direction with a line search             *)
(*   step, rk4 the state moves: Euler step, Runge-Kutta step               *)
(*   cb        the user's callback                                         *)
(*   ret       the driver returns                                          *)
(* Every event tells the version of the tensors before and after (v0, v),  *)
(* equal numbers meaning equal tensors, bond dimensions D, the energy h    *)
(* and whether eta is below the tolerances asked for (lt, lx).             *)
(*                                                                         *)
(* The monitor state m:                                                    *)
(*   p      what the user asked for        ver  version of the tensors     *)
(*   upd    version last brought up to date                                *)
(*   dir    version whose direction was computed last                      *)
(*   steps, cbs   moves and callbacks so far;  sum, total: time moved      *)
(*   since the last callback and in all; eul: the part of sum in Euler     *)
(*   steps; dyn: bonds were to grow since then; D0: bonds at that time     *)
(*   dt     last move;  h, hp: last two energies, nh: number of energies   *)
(*   wait   iterations to wait before bonds may grow again                 *)
(*   cg     what the last conjugate-gradient direction returned            *)
(***************************************************************************)
EXTENDS FiniteState

Start(e) == [p |-> e.p, drv |-> e.drv, ver |-> e.v, upd |-> e.v, dir |-> -1, steps |-> 0, cbs |-> 0,
             sum |-> <<0, 0>>, total |-> <<0, 0>>, eul |-> 0, dyn |-> FALSE, moves |-> 0, D |-> e.D, D0 |-> e.D,
             dt |-> 0, h |-> e.h, hp |-> e.h, h0 |-> e.h, nh |-> 0, lt |-> FALSE, lx |-> FALSE, wait |-> 0, D1 |-> e.D,
             cg |-> [n |-> 0, bdot |-> 0, h |-> 0, first |-> 0, cf |-> FALSE], psi |-> <<>>, t |-> 0]

Within(x, y, tol) == Abs(RSub(x, y)) <= tol
TopD(D) == IF D = <<>> THEN 0 ELSE CHOOSE d \in {D[j] : j \in 1..Len(D)} : \A j \in 1..Len(D) : D[j] <= d
\* bonds can still grow below the limit
Room(m) == IF Len(m.D) = 1 THEN m.D[1] < m.p.Dmax
           ELSE LET cap == CapD([j \in 1..Len(m.D) |-> m.p.Dmax], m.p.q) IN \E j \in 1..Len(m.D) : m.D[j] < cap[j]
Fresh(m) == m.upd = m.ver
Known(m) == m.dir = m.ver
Iter(m) == m.p.cb = 0 \/ m.cbs = m.steps + 1       \* the callback of this iteration has happened

\* none: the system is left to find the direction itself
Along(e, m) == e.B = "none" \/ (e.B = "last" /\ Known(m))

\* ---- opt_im_time
Converged(m) == m.lt /\ m.D[1] = m.p.target /\ m.wait = 0
Rose(m) == m.nh >= 2 /\ m.h > m.hp + 64
StepSize(e, m) ==
  LET b == m.p.base  d == e.dt[1] IN
  Cl(Abs(e.dt[2]) <= 1, "not-imaginary-time")
  \cup (IF m.steps = 0 THEN Cl(Within(d, m.p.dt0, 2), "first-step") ELSE {})
  \cup (IF m.p.auto = 0 THEN Cl(Within(d, m.p.dt0, 2), "step-changed") ELSE
        Cl(d >= Min2(b \div 100, m.p.dt0) - 2 /\ d <= Max2(2 * b, m.p.dt0) + 2, "step-size-limits")
        \cup (IF Rose(m) THEN Cl(d < m.dt \/ d <= b \div 100 + 2, "step-not-reduced") ELSE {}))
ImStep(e, m) ==
  LET want == m.D[1] < m.p.target /\ m.lx /\ m.wait = 0 IN
  Cl(Fresh(m), "step-from-stale-state") \cup Cl(Along(e, m), "step-along-other-direction")
  \cup Cl(Iter(m), "callback-missing") \cup Cl(m.steps < m.p.max, "iteration-limit") \cup Cl(~(Known(m) /\ Converged(m)), "not-stopped")
  \cup StepSize(e, m)
  \cup Cl((e.dyn = 1) = want, "expansion-schedule")
  \cup (IF e.dyn = 1 THEN Cl(e.Dmax = m.p.target /\ e.dDmax = m.p.estep, "expansion-limits") ELSE {})
  \cup Cl(e.D[1] <= Max2(m.p.target, m.D[1]) /\ e.D[1] <= m.D[1] + (IF e.dyn = 1 THEN m.p.estep ELSE 0), "bond-dimension")
ImRet(e, m) ==
  Cl(Fresh(m) /\ Known(m), "returned-stale-state") \cup Cl(m.steps = m.p.max \/ Converged(m), "stopped-early")
  \cup Cl(e.n = m.steps + 1, "iterations-reported") \cup Cl(m.p.cb = 0 \/ m.cbs = m.steps + 1, "callback-missing")
  \cup Cl(Within(e.tau, m.total[1], 64), "time-reported") \cup Cl(Within(e.dtau, IF m.steps = 0 THEN m.p.dt0 ELSE m.dt, 2), "step-reported")
  \cup (IF m.p.fine = 1 /\ TopD(m.D) = TopD(m.D0) THEN Cl(m.h <= m.h0 + 512, "energy-above-start") ELSE {})

\* ---- opt_conj_grad
Guess(m) == IF m.p.h0 < 0 THEN 15 * m.p.base ELSE Min2(Max2(m.p.h0, 5 * m.p.base), 15 * m.p.base)
Reset(m) == m.steps % m.p.reset = 0
CalcCG(e, m) ==
  Cl(Fresh(m), "direction-of-stale-state") \cup Cl((e.reset = 1) = Reset(m) \/ m.steps = m.p.max, "reset-schedule")
  \cup Cl(Within(e.init, m.p.base, 2), "initial-step")
  \cup (IF e.reset = 1 THEN {} ELSE
        Cl(m.cg.n > 0 /\ e.BCG = "last" /\ e.Bg = "last" /\ Within(e.bdot, m.cg.bdot, 2), "not-conjugate")
        \cup Cl(~m.cg.cf, "gauge-changed"))
  \cup Cl(Within(e.h, IF m.steps = 0 THEN Guess(m) ELSE IF m.steps = 1 THEN m.p.base ELSE m.cg.h, 16), "first-guess")
CgStep(e, m) ==
  Cl(Known(m) /\ m.cg.n > 0 /\ e.B = "last", "step-along-other-direction") \cup Cl(Iter(m), "callback-missing")
  \cup Cl(m.steps < m.p.max, "iteration-limit") \cup Cl(~m.lt, "not-stopped")
  \cup Cl(Abs(e.dt[2]) <= 1 /\ Within(e.dt[1], m.cg.h, 2), "step-size") \cup Cl(e.dyn = 0 /\ e.D = m.D, "bond-dimension")
CgRet(e, m) ==
  Cl(Known(m), "returned-stale-state") \cup Cl(m.steps = m.p.max \/ m.lt, "stopped-early")
  \cup Cl(e.n = m.steps + 1, "iterations-reported") \cup Cl(m.p.cb = 0 \/ m.cbs = m.steps + 1, "callback-missing")
  \cup Cl(Within(e.h0, IF m.steps = 0 THEN Guess(m) ELSE m.cg.first, 16), "first-step-reported")
  \cup Cl((e.Bg = "") = (m.p.retB = 0), "direction-returned") \cup Cl(e.Bg \in {"", "last"}, "direction-returned")
  \cup Cl(m.h <= m.h0 + 512, "energy-above-start")

\* ---- evolve: the time asked for in equal steps
Moved(m) == \* what happened in one iteration
  Cl(CDist(m.sum, <<0, m.p.dt>>) <= 16, "time-step")
  \cup Cl(m.dyn = (m.p.dyn = 1 /\ Room([m EXCEPT !.D = m.D0])), "expansion-schedule")
  \cup Cl(m.p.integ = "euler" \/ m.eul <= m.p.dt2, "integrator")
EvStep(e, m) ==
  Cl(Fresh(m), "step-from-stale-state") \cup Cl(Along(e, m), "step-along-other-direction") \cup Cl(m.p.cb = 0 \/ m.cbs > 0, "callback-missing")
  \cup Cl(Abs(e.dt[1]) <= 1, "not-real-time") \cup Cl(m.p.integ = "rk4" \/ e.op = "step", "integrator")
  \cup (IF e.dyn = 1 THEN Cl(m.p.dyn = 1 /\ Room(m), "expansion-schedule")
                          \cup Cl(e.Dmax = m.p.Dmax /\ e.dDmax = m.p.dDmax /\ e.tol = 1, "expansion-limits") ELSE {})
  \cup Cl(\A j \in 1..Len(e.D) : e.D[j] <= Max2(m.p.Dmax, m.D[j]) /\ e.D[j] <= m.D[j] + (IF e.dyn = 1 THEN m.p.dDmax ELSE 0), "bond-dimension")
EvRet(e, m) ==
  Cl(Fresh(m), "returned-stale-state") \cup Cl(CDist(m.total, <<0, m.p.n * m.p.dt>>) <= 16 + 4 * m.p.n, "total-time")
  \cup Cl(m.p.cb = 0 \/ m.cbs = m.p.n + 1, "number-of-steps") \cup Cl(m.sum = <<0, 0>> \/ m.p.cb = 0, "moved-after-callback")

\* ---- opt_grad_descent, find_ground: made of the two above
Composite(e, m) ==
  Cl(Along(e, m), "step-along-other-direction") \cup Cl(Fresh(m), "step-from-stale-state")
  \cup Cl(m.p.cb = 0 \/ (m.cbs > 0 /\ m.moves = 0), "callback-missing") \cup Cl(Abs(e.dt[2]) <= 1 /\ e.dt[1] >= 0, "not-imaginary-time")
  \cup Cl(e.D[1] <= Max2(m.p.target, m.D[1]) /\ e.D[1] <= m.D[1] + (IF e.dyn = 1 THEN m.p.estep ELSE 0), "bond-dimension")
  \cup Cl(e.dyn = 0 \/ m.D[1] < m.p.target, "expansion-schedule")
GdRet(e, m) ==
  Cl(Fresh(m), "returned-stale-state") \cup Cl(m.p.cb = 0 \/ e.n = m.cbs, "iterations-reported") \cup Cl(e.n >= m.p.max \/ m.lt, "stopped-early")
  \cup Cl(m.steps <= m.p.max, "iteration-limit") \cup Cl(m.p.fine = 0 \/ m.h <= m.h0 + 512, "energy-above-start")
GroundRet(e, m) ==
  Cl(Fresh(m), "returned-stale-state") \cup Cl(m.steps >= m.p.max \/ (Known(m) /\ m.lt), "stopped-early")
  \cup Cl(m.D[1] = m.p.target, "bond-dimension") \cup Cl(m.p.fine = 0 \/ m.h <= m.h0 + 512, "energy-above-start")

\* ---- every driver
Call(e, m) ==
  CASE e.op = "begin" -> {}
    [] e.op = "update" ->
         Cl(m.drv \notin {"im", "evolve"} \/ e.trunc = m.p.trunc, "truncation-setting")
         \cup Cl(TopD(e.D) <= TopD(m.D), "bond-dimension")
    [] e.op = "calcB" -> Cl(Fresh(m), "direction-of-stale-state")
    [] e.op = "calcCG" -> IF m.drv = "cg" THEN CalcCG(e, m) ELSE Cl(Fresh(m), "direction-of-stale-state")
    [] e.op = "cb" ->
         Cl(e.same = 1, "callback-system") \cup Cl(m.p.cb = 1, "callback-unasked") \cup Cl(e.i = m.cbs, "callback-index")
         \cup Cl(Fresh(m), "callback-stale-state") \cup Cl(Known(m), "callback-stale-direction")
         \cup (CASE m.drv = "im" -> Cl(m.cbs = m.steps, "callback-schedule") \cup Cl(Within(e.tau, m.total[1], 64), "callback-time")
                [] m.drv = "cg" -> Cl(m.cbs = m.steps, "callback-schedule") \cup Cl(m.cg.n = 0 \/ m.steps = m.p.max \/ Within(e.hs, m.cg.h, 2), "callback-step")
                [] m.drv = "evolve" -> IF m.cbs = 0 THEN Cl(m.moves = 0, "callback-missing") ELSE Moved(m)
                [] OTHER -> {})
    [] e.op \in {"step", "rk4"} ->
         CASE m.drv = "im" -> IF e.op = "rk4" THEN {"integrator"} ELSE ImStep(e, m)
           [] m.drv = "cg" -> IF e.op = "rk4" THEN {"integrator"} ELSE CgStep(e, m)
           [] m.drv = "evolve" -> EvStep(e, m)
           [] OTHER -> Composite(e, m)
    [] e.op = "ret" ->
         Cl(e.same = 1, "returned-system") \cup
         (CASE m.drv = "im" -> ImRet(e, m) [] m.drv = "cg" -> CgRet(e, m) [] m.drv = "evolve" -> EvRet(e, m)
            [] m.drv = "gd" -> GdRet(e, m) [] OTHER -> GroundRet(e, m))
    \* growing bonds can leave a state too ill-conditioned for the eigenvalue solver
    [] e.op = "gaveup" -> Cl(m.drv # "cg" /\ TopD(m.D) > TopD(m.D1), "raised")
    [] OTHER -> {"unknown-event"}
\* nobody but the system itself moves the tensors
Direct(e, m) == IF e.op \in {"begin", "gaveup"} THEN {} ELSE Cl(e.v0 = m.ver, "state-changed-directly")

\* ---- what the monitor remembers
Remember(e, m) ==
  LET m1 == IF e.op \in {"begin", "gaveup"} THEN m ELSE [m EXCEPT !.ver = e.v, !.D = e.D] IN
  CASE e.op = "begin" -> Start(e)
    [] e.op = "update" -> [m1 EXCEPT !.upd = e.v, !.hp = m.h, !.h = e.h, !.nh = IF m.upd = m.ver THEN m.nh ELSE m.nh + 1,
                                     !.dir = IF e.v = m.ver THEN m.dir ELSE -1,
                                     !.cg.cf = m.cg.cf \/ e.restore = 1]
    [] e.op = "calcB" -> [m1 EXCEPT !.dir = e.v, !.lt = (e.lt = 1), !.lx = (e.lx = 1)]
    [] e.op = "calcCG" -> [m1 EXCEPT !.dir = e.v, !.upd = e.v, !.lt = (e.lt = 1), !.lx = (e.lx = 1),
                                     !.cg = [n |-> m.cg.n + 1, bdot |-> e.out[1], h |-> e.out[2],
                                             first |-> IF m.steps = 0 THEN e.out[2] ELSE m.cg.first, cf |-> FALSE]]
    [] e.op = "cb" -> [m1 EXCEPT !.cbs = @ + 1, !.sum = <<0, 0>>, !.eul = 0, !.dyn = FALSE, !.moves = 0, !.D0 = IF m.drv = "evolve" THEN e.D ELSE @]
    [] e.op \in {"step", "rk4"} ->
         [m1 EXCEPT !.steps = @ + 1, !.moves = @ + 1, !.sum = CAdd(@, e.dt), !.total = CAdd(@, e.dt), !.dt = e.dt[1],
                    !.eul = IF e.op = "step" THEN @ + Abs(e.dt[2]) ELSE @, !.dyn = @ \/ e.dyn = 1,
                    !.wait = IF e.dyn = 1 THEN m.p.wait ELSE Max2(m.wait - 1, 0)]
    [] OTHER -> m1
=============================================================================
