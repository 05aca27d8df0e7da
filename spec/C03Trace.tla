------------------------------ MODULE C03Trace ------------------------------
(* Logs recorded from the implementation, under controlled schedules (C03). *)
EXTENDS Judge, PipelineLog, Real64

C03Failing(run) ==
  IF run.obs.outcome \notin {"return", "raise"} THEN {"completes"}
  ELSE LET o == run.obs  c == run.case IN
    Cl("succeeds", o.outcome = "return")
    \cup Cl("one-thread-per-dataset", Exclusive(o.log))
    \cup Cl("tiles-written-once", WrittenOnce(o.log, o.shape))
    \cup Cl("mask-written-once", MaskOnce(o.log, o.shape, c.masked))
    \cup Cl("overviews-last", OverviewsLast(o.log, c.ovw))
    \cup Cl("nothing-after-return", NothingAfter(o.log) /\ JobsDone(o.log))
    \cup Cl("no-access-when-closed", NotClosed(o.log))
    \cup Cl("same-image", o.content = o.ref)
    \cup Cl("same-mask", o.mask_content = o.mask_ref)
    \cup Cl("same-values", R(o.maxdiff) \preceq o.difftol)
=============================================================================
