------------------------------ MODULE C05Trace ------------------------------
EXTENDS Judge, Profile

(* Undistorted integer images have blurred edges, that are cut off band by band or for all bands at once: see KNOWN_FINDINGS *)
Fringe(c) == /\ ~Get(c, "strict", FALSE) /\ c.content.undistort /\ c.content.interp # "nearest"
             /\ DtypeOf(c.content) \in {"uint8", "uint16", "int16"}
Same(c, a, b) ==
  Cl("same-georeferencing", a.size = b.size /\ a.transform = b.transform /\ a.crs = b.crs)
  \cup Cl("same-bands", a.count = b.count /\ a.dtype = b.dtype)
  \cup Cl("same-validity", b.n_fringe = 0 \/ (Fringe(c) /\ b.options.per_band # a.options.per_band /\ b.n_fringe * 50 < a.n_valid))
  \cup Cl("same-values", b.n_diff = 0)

C05Failing(run) ==
  LET c == run.case  o == run.obs IN
  IF "outcome" \notin DOMAIN o \/ o.outcome # "ok" \/ \E k \in DOMAIN o.runs : o.runs[k].outcome # "ok" THEN {"completes"}
  ELSE UNION {Same(c, o.runs[1], o.runs[k]) : k \in DOMAIN o.runs}
       \cup Cl("bands-of-the-source", \A k \in DOMAIN o.runs : o.runs[k].count = c.content.bands)
       \cup Cl("colour-interpretation-of-the-source", \A k \in DOMAIN o.runs : o.runs[k].colorinterp = o.src_colorinterp)
       \cup Cl("shows-imagery", o.runs[1].n_valid > 100 /\ o.runs[1].n_invalid > 100 /\ o.bands_differ)
=============================================================================
