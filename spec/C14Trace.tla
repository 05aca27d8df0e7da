------------------------------ MODULE C14Trace ------------------------------
(* What the reader gives for a document must be what the table says. *)
EXTENDS Judge, Real64

C == INSTANCE Csv WITH Tables <- {}, Orders <- {}, table <- bad, doc <- bad, line <- bad, given <- bad, verdict <- bad

Fields(c) == {c.order[i] : i \in DOMAIN c.order}
Rad(v) == RDiv(RMul(v, "3.141592653589793"), "180")
Close(a, b) == \A i \in 1..3 : RNear(a[i], b[i], RMul("1e-12", RMax("1", RAbs(b[i]))))
C14Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE
  LET c == run.case  o == run.obs
      m == C!Meaning(c.table, Fields(c))
      row(k) == o.params[k]
      same == Len(o.params) = Len(m)
  IN IF ~c.ok THEN Cl("without-fields-rejected", o.error = "ParamError")
     ELSE IF o.error # "" THEN {"reads"}
     ELSE Cl("rows", same)
          \cup (IF ~same THEN {}
                ELSE Cl("file-names", \A k \in DOMAIN m : row(k).filename = m[k].filename)
                     \cup Cl("cameras", \A k \in DOMAIN m : row(k).camera = IF "camera" \in DOMAIN m[k] THEN m[k].camera ELSE "none")
                     \cup (IF c.kind \in {"xyz_opk", "xyz_rpy"} THEN Cl("positions", \A k \in DOMAIN m : Close(row(k).xyz, <<m[k].x, m[k].y, m[k].z>>)) ELSE {})
                     \cup (IF c.kind \in {"xyz_opk", "lla_opk"} THEN Cl("angles", \A k \in DOMAIN m : Close(row(k).opk, <<Rad(m[k].omega), Rad(m[k].phi), Rad(m[k].kappa)>>)) ELSE {})
                     \cup Cl("same-as-plain-layout", o.ref_error = "" /\ Len(o.ref) = Len(m) /\ \A k \in DOMAIN m : Close(row(k).xyz, o.ref[k].xyz) /\ Close(row(k).opk, o.ref[k].opk)))
=============================================================================
