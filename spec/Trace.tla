------------------------------- MODULE Trace --------------------------------
(* Validates a recorded history of the real library against Ops.  Every      *)
(* event must be the step Ops allows from the registers before it.  A        *)
(* mismatch is reported and counted, and the registers are set to what was   *)
(* observed, so that the rest of the history is still checked.  Only events  *)
(* marked "fo" (those that decide the property) count.                       *)
EXTENDS Ops

Log == ndJsonDeserialize(IOEnv.MM_TRACE)
VARIABLES l, regs, lost

vars == <<l, regs, lost>>
Init == l = 1 /\ regs = NoRegs /\ lost = FALSE /\ TLCSet(1, 0) /\ TLCSet(2, 0)

RECURSIVE Apply(_, _, _)
Apply(rs, ds, i) == IF i > Len(ds) THEN rs ELSE Apply([rs EXCEPT ![ds[i][1]] = ds[i][2]], ds, i + 1)

Report(e, x, obs) ==
  PrintT("MISMATCH " \o ToJson([i |-> e.i, exp |-> x.out, out |-> e.out, outok |-> OutOK(e.op, regs, x.out, e.out),
                                 regs |-> {<<r, x.regs[r], obs[r]>> : r \in {q \in REGS : x.regs[q] # obs[q]}}]))

Event ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         obs == Apply(IF e.op.o = "reset" THEN NoRegs ELSE regs, e.d, 1)
     IN /\ regs' = obs
        /\ lost' = IF e.op.o = "reset" THEN FALSE ELSE lost \/ e.q
        /\ IF lost /\ e.op.o # "reset" THEN TRUE
           ELSE LET x == Step(e.op, regs) IN
                /\ (e.op.fo => TLCSet(2, TLCGet(2) + 1))
                /\ \/ OutOK(e.op, regs, x.out, e.out) /\ x.regs = obs
                   \/ /\ ~(OutOK(e.op, regs, x.out, e.out) /\ x.regs = obs)
                      /\ (e.op.fo => TLCSet(1, TLCGet(1) + 1) /\ Report(e, x, obs))

Spec == Init /\ [][Event]_vars
Checked == PrintT("CHECKED " \o ToString(TLCGet(2)) \o " " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Log)))
Accepted == Checked /\ TLCGet("stats").diameter - 1 = Len(Log) /\ TLCGet(1) = 0
=============================================================================
