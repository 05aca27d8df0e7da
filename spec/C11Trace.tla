------------------------------ MODULE C11Trace ------------------------------
(* Look-ups must give what Factory says. *)
EXTENDS Judge, Real64

F == INSTANCE Factory WITH Names <- {}, RpcKeys <- <<>>, GcpSets <- {}, MaxSteps <- 0, corr <- bad, cache <- bad, given <- bad, n <- bad

(* frame collections: obs.table[i][p] is the signature of a new camera with interior i and pose p *)
FrameWants(run, s) == F!FrameOf(run.case.exts, run.case.ints, s.name)
FrameStep(run, s) ==
  (IF s.kind = "get"
   THEN LET w == FrameWants(run, s) IN
        IF w = <<0, 0>> THEN Cl("missing-or-ambiguous-rejected", s.error = "ParamError")
        ELSE Cl("own-parameters", s.error = "" /\ s.sig = run.obs.table[w[1]][w[2]])
   ELSE IF s.kind = "export"
   THEN Cl("export", s.error = "" /\ s.again = s.names)
   ELSE {})
  \cup Cl("earlier-cameras-unchanged", s.kept)
  \cup Cl("caller-parameters-unchanged", s.same)
  \cup Cl("filenames", Range(s.filenames) = {run.case.exts[k].key : k \in DOMAIN run.case.exts})

(* RPC collections: obs.base[k] are the pixels of probes with model k, obs.scene[k] those of its scene; the GCPs *)
(* of correction c are c pixels off the scene                                                                      *)
Near(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RNear(a[i], b[i], "0.00001")
Wanted(run, k, c) ==
  IF c = 0 THEN run.obs.base[k] ELSE LET b == run.obs.scene[k] IN [i \in DOMAIN b |-> RAdd(b[i], run.obs.corrs[c][1 + ((i - 1) % 2)])]
RpcStep(run, s) ==
  LET keys == [k \in DOMAIN run.case.keys |-> run.case.keys[k].name] IN
  (IF s.kind = "get"
   THEN LET key == F!KeyOf(Range(keys), s.name) IN
        IF key = "" THEN Cl("missing-or-ambiguous-rejected", s.error = "ParamError")
        ELSE LET k == CHOOSE k \in DOMAIN keys : keys[k] = key IN
             Cl("own-model-with-refinement", s.error = "" /\ Near(s.pixels, Wanted(run, k, s.corr[k])))
   ELSE IF s.kind = "export"
   THEN Cl("export", s.error = "" /\ \A k \in DOMAIN keys : Near(s.again[k], Wanted(run, k, s.corr[k])))
   ELSE IF s.fails THEN Cl("refine-fails", s.error # "") ELSE Cl("refine", s.error = ""))
  \cup Cl("earlier-cameras-unchanged", s.kept)
  \cup Cl("caller-parameters-unchanged", s.same)
  \cup Cl("filenames", Range(s.filenames) = Range(keys))

C11Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE UNION {LET s == run.obs.steps[k] IN IF run.case.kind = "frame" THEN FrameStep(run, s) ELSE RpcStep(run, s) : k \in DOMAIN run.obs.steps}
=============================================================================
