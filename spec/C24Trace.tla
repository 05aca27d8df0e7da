------------------------------ MODULE C24Trace ------------------------------
(* What is read must be what is stored, or an error when something is missing. *)
EXTENDS Judge, Tags

GcpFailing(c, w, g) ==
  Cl("pixel", SameNumbers(g.ji, w.ji)) \cup Cl("position", SamePlace(<<g.xyz[2], g.xyz[1], g.xyz[3]>>, w.lla))
  \cup (IF KeepsTexts(c.store) THEN Cl("id", SameText(c.store, g.id, w.id)) \cup Cl("info", SameText(c.store, g.info, w.info)) ELSE {})
ImageFailing(c, w, g) ==
  IF c.kind = "gcps" THEN IF Len(g.gcps) # Len(w.gcps) THEN {"every-gcp"} ELSE UNION {GcpFailing(c, w.gcps[k], g.gcps[k]) : k \in DOMAIN w.gcps}
  ELSE Cl("image-size", SameNumbers(g.size, w.size))
       \cup (IF \E f \in Fields : f \notin DOMAIN g.rpc THEN {"every-field"} ELSE UNION {Cl(f, SameNumbers(g.rpc[f], w.rpc[f])) : f \in Fields})
Named(images, name) == images[CHOOSE i \in DOMAIN images : images[i].name = name]
C24Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE
  LET c == run.case  o == run.obs
      n == Len(c.images)
  IN IF Spoilt(c) THEN Cl("rejects", o.error = ErrorFor(c.spoil)) \cup Cl("names-file", o.error = ErrorFor(c.spoil) => o.named)
     ELSE IF o.error # "" THEN {"reads"}
     ELSE IF Len(o.images) # n THEN {"every-image"}
     ELSE IF {o.images[i].name : i \in 1..n} # {c.images[i].name : i \in 1..n} THEN {"image-name"}
     ELSE UNION {ImageFailing(c, c.images[i], Named(o.images, c.images[i].name)) : i \in 1..n} \cup Cl("source-unchanged", o.unchanged)
=============================================================================
