------------------------------ MODULE C04Trace ------------------------------
(* Logs recorded from the implementation, with steps that fail (C04). *)
EXTENDS Judge, PipelineLog

C04Failing(run) ==
  IF run.obs.outcome \notin {"return", "raise"} THEN {"completes"}
  ELSE LET o == run.obs  c == run.case IN
    Cl("failure-is-raised", FaultRaises(o.log))
    \cup Cl("succeeds-without-failure", NoFaultReturns(o.log))
    \cup Cl("complete-on-success", c.kind \in {"ortho", "perband", "pan"} => WrittenOnce(o.log, o.shape) /\ MaskOnce(o.log, o.shape, c.masked))
    \cup Cl("images-complete-on-success", o.outcome = "return" /\ Has(o, "entries") => o.entries = o.expected)
    \cup Cl("nothing-after-the-end", NothingAfter(o.log) /\ JobsDone(o.log))
    \cup Cl("no-access-when-closed", NotClosed(o.log))
    \cup Cl("one-thread-per-dataset", c.kind \in {"ortho", "perband", "pan"} => Exclusive(o.log))
=============================================================================
