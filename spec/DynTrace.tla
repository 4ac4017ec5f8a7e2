------------------------------ MODULE DynTrace ------------------------------
(***************************************************************************)
(* Traces of the high-level drivers (P23): the calls a driver made on the  *)
(* system, judged by the monitor of Drivers.tla; for the drivers built on  *)
(* an integrator of scipy the states shown to the callback are compared    *)
(* with exp(-iHt) psi.                                                     *)
(***************************************************************************)
EXTENDS Drivers
Traces == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES tid, i, st

RECURSIVE ExpSeries(_, _, _, _, _)
ExpSeries(v, term, c, o, j) ==
  IF j > 24 \/ VMax(term) = 0 THEN v
  ELSE LET t == TLCEval(VScale(<<-c[1] \div j, -c[2] \div j>>, HamV(st.p.h, st.p.k, term, o.q))) IN
       ExpSeries(TLCEval(VAdd(v, t)), t, c, o, j + 1)
Exact(v, c, o) == ExpSeries(v, v, c, o, 1)
Energy(v, o) == RDiv(VDot(v, HamV(st.p.h, st.p.k, v, o.q))[1], VNorm2(v))

\* the state shown (or left) is the one at the time told
OdeState(e, t) ==
  LET v == Psi(e.out.A) IN
  Stored(e.out, TRUE, TRUE)
  \cup (IF t = 0 THEN Cl(SameRay(st.psi, v), "state")
        ELSE IF st.p.complete = 1 THEN Cl(SameRay(Exact(st.psi, <<0, t>>, e.out), v), "not-the-evolution")
        ELSE Cl(Within(Energy(v, e.out), Energy(st.psi, e.out), 16384), "energy-not-conserved"))
OdeCb(e) ==
  Cl(e.same = 1, "callback-system") \cup Cl(st.p.cb = 1, "callback-unasked") \cup Cl(e.i = st.cbs, "callback-index")
  \cup Cl(e.upd = e.v, "callback-stale-state")
  \cup Cl(e.t >= st.t /\ e.t <= st.p.T + 4, "time") \cup Cl(st.cbs > 0 \/ e.t = 0, "time") \cup Cl(st.cbs < st.p.max, "iteration-limit")
  \cup (IF st.p.old = 1 THEN Cl(Within(e.t, e.i * st.p.dt, 16 + e.i), "time") ELSE {})
  \cup OdeState(e, e.t)
\* the time asked for, unless the number of steps did not suffice; the last step is made after the last callback
OdeRet(e) ==
  Cl(e.upd = e.v, "returned-stale-state")
  \cup Cl(Within(e.t, st.p.T, 16 + st.p.max) \/ (st.p.old = 0 /\ st.cbs = st.p.max), "stopped-early")
  \cup Cl(st.p.cb = 0 \/ st.p.old = 0 \/ st.cbs = st.p.max, "callback-missing")
  \cup OdeState(e, e.t)

Ode(e) == CASE e.op = "begin" -> {} [] e.op = "cb" -> OdeCb(e) [] e.op = "ret" -> OdeRet(e) [] OTHER -> {"unknown-event"}
Verdict(e) ==
  IF Has(e, "exc") THEN {"raised"}
  ELSE IF e.op = "begin" THEN {}
  ELSE IF st.drv = "ode" THEN Ode(e) ELSE Call(e, st) \cup Direct(e, st)
After(e) ==
  IF Has(e, "exc") THEN st
  ELSE IF e.op = "begin" THEN (IF e.drv = "ode" THEN [Start(e) EXCEPT !.psi = Psi(e.out.A)] ELSE Start(e))
  ELSE IF st.drv = "ode" THEN (IF e.op = "cb" THEN [st EXCEPT !.cbs = @ + 1, !.t = e.t] ELSE st)
  ELSE Remember(e, st)

Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = [drv |-> ""]
Next ==
  LET e == Traces[tid].ev[i + 1] IN
  /\ i < Len(Traces[tid].ev)
  /\ i' = i + 1
  /\ tid' = tid
  /\ \A cl \in Verdict(e) : PrintT(<<"FAIL", tid, i + 1, cl>>)
  /\ st' = After(e)
=============================================================================
