------------------------------ MODULE C13Trace ------------------------------
(* What the reader gives for a document must be what IntDoc says. *)
EXTENDS Judge, Real64

I == INSTANCE IntDoc WITH Docs <- {}, doc <- bad, left <- bad, given <- bad, verdict <- bad

Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
\* one focal length for both axes is the same as two equal ones
Spread(v) == IF Len(v) = 1 THEN <<v[1], v[1]>> ELSE v
CamFailing(doc, cam, got) ==
  LET params == I!Params(doc.layout, cam)
      keys == {got.params[i].key : i \in DOMAIN got.params}
      val(k) == got.params[CHOOSE i \in DOMAIN got.params : got.params[i].key = k].val
      want(k) == I!Value(doc.layout, cam, k)
  IN Cl("camera-type", got.type = I!TypeOf(doc.layout, cam))
     \cup Cl("nothing-dropped", params \subseteq keys)
     \cup Cl("nothing-invented", keys \subseteq params)
     \cup Cl("values", \A k \in params \cap keys : IF k = "focal_len" THEN Same(Spread(val(k)), Spread(want(k))) ELSE Same(val(k), want(k)))
C13Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE
  LET d == run.case  o == run.obs
      got(as) == {i \in DOMAIN o.cams : o.cams[i].id = as}
  IN IF ~I!Valid(d) THEN Cl("invalid-rejected", o.error = "ParamError") \cup Cl("invalid-rejected-everywhere", \A i \in DOMAIN o.others : o.others[i] = "ParamError")
     ELSE IF o.error # "" THEN {"reads"}
     ELSE Cl("cameras", Len(o.cams) = Len(d.cams) /\ \A i \in DOMAIN d.cams : got(d.cams[i].as) # {})
          \cup Cl("order", Len(o.cams) = Len(d.cams) => \A i \in DOMAIN d.cams : o.cams[i].id = d.cams[i].as)
          \cup UNION {IF got(d.cams[i].as) = {} THEN {} ELSE CamFailing(d, d.cams[i], o.cams[CHOOSE k \in got(d.cams[i].as) : TRUE]) : i \in DOMAIN d.cams}
          \cup Cl("projects", o.projects = "") \cup Cl("read-everywhere", \A i \in DOMAIN o.others : o.others[i] = "")
=============================================================================
