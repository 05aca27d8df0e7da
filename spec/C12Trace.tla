------------------------------ MODULE C12Trace ------------------------------
(* Parameters that were written and read back are the same, and so is what is written of them. *)
EXTENDS Judge, Real64

Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
SameFields(want, got) ==
  LET val(k) == got[CHOOSE i \in DOMAIN got : got[i].key = k].val
  IN /\ {want[i].key : i \in DOMAIN want} = {got[i].key : i \in DOMAIN got}
     /\ \A i \in DOMAIN want : Same(want[i].val, val(want[i].key))
SameGcps(want, got) == Len(want) = Len(got) /\ \A i \in DOMAIN want : Same(want[i].ji, got[i].ji) /\ Same(want[i].xyz, got[i].xyz) /\ want[i].id = got[i].id /\ want[i].info = got[i].info
EntriesFailing(c, got) ==
  IF Len(got) # Len(c.entries) THEN {"entries"}
  ELSE Cl("names-in-order", \A k \in DOMAIN got : got[k].id = c.entries[k].id)
       \cup Cl("camera-types", c.kind \in {"int", "rpc"} => \A k \in DOMAIN got : got[k].cam_type = c.entries[k].cam_type)
       \cup Cl("camera-ids", c.kind = "ext" => \A k \in DOMAIN got : got[k].camera = c.entries[k].camera)
       \cup Cl("values", \A k \in DOMAIN got : IF c.kind = "gcps" THEN SameGcps(c.entries[k].fields, got[k].fields) ELSE SameFields(c.entries[k].fields, got[k].fields))
C12Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE
  LET c == run.case  o == run.obs
  IN Cl("writes-and-reads", o.error = "")
     \cup (IF o.error # "" THEN {}
           ELSE (IF c.kind = "collection" THEN Cl("same-parameters", o.same_params) ELSE EntriesFailing(c, o.first) \cup EntriesFailing(c, o.second))
                \cup Cl("same-content", o.same_text) \cup Cl("same-crs", o.same_crs) \cup Cl("cameras-project-identically", o.same_cameras) \cup Cl("parameters-not-changed", o.unchanged))
=============================================================================
