------------------------------ MODULE C10Trace ------------------------------
(* Each answer must be that of a new camera with the parameters that CameraHist says are current. *)
EXTENDS Judge

StepFailing(s) ==
  Cl("answer-of-new-camera", s.given = s.fresh)
  \cup Cl("query-needs-pose", s.kind = "query" /\ s.value \in {"project", "back-project", "world-boundary", "surface-boundary", "remap", "ortho"} /\ s.at.pose = 0 /\ s.rpc = FALSE
                               => s.given.error # "")
  \cup Cl("query-answers", s.kind = "query" /\ (s.at.pose # 0 \/ s.rpc) => s.fresh.error = "")
  \cup Cl("bad-call-fails", s.kind \in {"bad-query", "bad-update"} => s.given.error # "")
  \cup Cl("settings", s.rpc \/ s.settings = s.expected)
  \cup Cl("arguments-unchanged", s.same)

C10Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE UNION {StepFailing(run.obs.steps[k]) : k \in DOMAIN run.obs.steps}
=============================================================================
