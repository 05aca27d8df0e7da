------------------------------ MODULE C06Trace ------------------------------
EXTENDS Judge, Profile

(* see C05Trace *)
Fringe(c) == c.undistort /\ c.kind = "ortho" /\ c.interp # "nearest" /\ DtypeOf(c) \in {"uint8", "uint16", "int16"}

(* one file: an internal mask or a nodata value, never both; nothing outside the file *)
FileFailing(c, o) ==
  LET m == Masked(c) IN
  Cl("mask-or-nodata", o.nodata = Nodata(c) /\ o.flags = IF m THEN <<"per_dataset">> ELSE <<"nodata">>)
  \cup Cl("no-sidecar-files", o.sidecars = <<>>)
  \cup Cl("validity-of-all-bands", o.bands_same \/ (Fringe(c) /\ c.per_band /\ o.n_unlike * 50 < o.n_valid))
  \cup Cl("invalid-pixels-hold-nodata", o.invalid_hold /\ (o.valid_differ \/ (Fringe(c) /\ c.per_band)))
  \cup Cl("has-both", o.n_valid > 50 /\ o.n_invalid > 20)

C06Failing(run) ==
  LET c == run.case  o == run.obs  base == o.runs[1] IN
  IF "outcome" \notin DOMAIN o \/ o.outcome # "ok" \/ \E k \in DOMAIN o.runs : o.runs[k].outcome # "ok" THEN {"completes"}
  ELSE UNION {FileFailing(c.variants[k] @@ c.content, o.runs[k]) : k \in DOMAIN o.runs}
       \cup Cl("same-validity", \A k \in DOMAIN o.runs :
                 o.runs[k].n_unlike_base = 0 \/ (Fringe(c.content) /\ c.variants[k].per_band /\ o.runs[k].n_unlike_base * 50 < base.n_valid))
=============================================================================
