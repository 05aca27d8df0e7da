------------------------------ MODULE C21Trace ------------------------------
(* Each recorded call must be one of Handles: the pool as before, nothing of the library's left open. *)
EXTENDS Judge

H == INSTANCE Handles WITH MaxSteps <- 0, ModelOps <- {}, ModelKinds <- {}, pool <- bad, own <- bad, pc <- bad, call <- bad, pos <- bad, n <- bad

StepFailing(s) ==
  LET usable == \A k \in DOMAIN s.args : H!Usable(s.args[k], s.open[k])
  IN Cl("handles-as-before", s.pool_after = s.pool_before)
     \cup Cl("handles-usable", s.unusable = <<>>)
     \cup Cl("own-files-closed", s.left_open = <<>>)
     \cup (IF ~usable THEN Cl("unusable-rejected", s.res = "error") \cup Cl("unusable-no-output", s.out_after = s.out_before)
           ELSE IF s.fault # "none" THEN Cl("fault-raised", s.res = "error")
           ELSE Cl("usable-accepted", s.res = "ok") \cup Cl("output-complete", s.output = s.expected))

C21Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE UNION {StepFailing(run.obs.steps[k]) : k \in DOMAIN run.obs.steps}
=============================================================================
