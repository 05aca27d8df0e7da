------------------------------ MODULE C19Trace ------------------------------
(* The refined model must have the pixel coordinates of the original one, corrected as Refine says. *)
EXTENDS Judge, Real64

F == INSTANCE Refine WITH data <- bad

Method(c) == IF c.method = "default" THEN "shift" ELSE c.method
\* the correction of an axis is determined by the GCPs
Determined(m, b) == m = "shift" \/ RLt("0.01", F!Var(b))
AxisFailing(run, a) ==
  LET o == run.obs  m == Method(run.case)
      b == o.base_gcp[a]  g == o.gcp[a]
      c == F!Correction(m, b, g)
      near(x, y) == RNear(x, y, o.tol)
  IN IF ~Determined(m, b)
     THEN Cl("mean-residual", near(F!Mean(o.refined_gcp[a]), F!Mean(g)))
     ELSE Cl("correction-at-gcps", \A i \in DOMAIN b : near(o.refined_gcp[a][i], F!Corrected(c, b[i])))
          \cup Cl("correction-everywhere", \A i \in DOMAIN o.base_probe[a] : near(o.refined_probe[a][i], F!Corrected(c, o.base_probe[a][i])))
          \cup Cl("mean-residual", near(F!Mean(o.refined_gcp[a]), F!Mean(g)))
C19Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE LET o == run.obs IN
       Cl("caller-unchanged", o.same)
       \cup (IF run.case.few THEN Cl("too-few-rejected", o.error # "")
             ELSE IF o.error # "" THEN {"refines"}
             ELSE AxisFailing(run, 1) \cup AxisFailing(run, 2)
                  \cup Cl("other-parameters-kept", o.kept = "")
                  \cup Cl("without-gcps-kept", o.other_kept) \cup Cl("without-gcps-warned", o.warned))
=============================================================================
