------------------------------ MODULE C08Trace ------------------------------
(* Each recorded step must be a step of Files, on the recorded digests of the files. *)
EXTENDS Judge

F == INSTANCE Files WITH MaxSteps <- 0, fs <- bad, last <- bad, n <- bad

StepFailing(s) ==
  LET c == s.step.call
      outs == F!SlotsOf(c)
      exists == \E k \in outs : s.before[k] # "none"
      same(S) == \A k \in S : s.after[k] = s.before[k]
      \* the output is what the same call makes of an empty directory
      new(k) == s.content[k] = s.fresh[k] /\ s.fresh[k] # "none"
  IN IF s.step.kind # "call" THEN {}
     ELSE Cl("inputs-unchanged", s.inputs_same)
          \cup Cl("no-other-files", s.extra = <<>>)
          \cup Cl("other-files-unchanged", same(F!Slots \ outs))
          \cup (IF c.fault # "none"
                THEN Cl("invalid-call-fails", s.res # "ok") \cup Cl("invalid-call-changes-nothing", same(outs))
                ELSE IF ~c.ow /\ exists
                THEN Cl("exists-error", s.res = "exists")
                     \cup Cl("existing-files-unchanged", same({k \in outs : s.before[k] # "none"}))
                     \cup Cl("all-or-nothing", c.op = "cli-batch" \/ same(outs))
                     \cup Cl("new-files-complete", \A k \in outs : s.after[k] # s.before[k] => new(k))
                ELSE Cl("succeeds", s.res = "ok") \cup Cl("output-replaced", \A k \in outs : new(k)))

C08Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE UNION {StepFailing(run.obs.steps[k]) : k \in DOMAIN run.obs.steps}
=============================================================================
