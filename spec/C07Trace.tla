------------------------------ MODULE C07Trace ------------------------------
EXTENDS Judge, Profile, Real64

FormatFailing(c, o) ==
  LET blocks == BlocksOf(c, o.size) IN
  Cl("driver", o.driver = "GTiff" /\ (o.cog <=> c.driver = "cog"))
  \cup Cl("data-type", o.dtype = <<DtypeOf(c)>>)
  \cup Cl("bands", o.count = c.bands)
  \cup Cl("compression", CompressOf(c) = "" \/ o.compress \in CompressNames(c))
  \cup Cl("tiling", IF StripsOf(c) THEN \A k \in DOMAIN o.blocks : o.blocks[k][2] = o.size[1] ELSE TRUE)
  \cup Cl("blocks", blocks = <<>> \/ o.blocks = <<blocks>>)
  \cup Cl("photometric", (~HasOpts(c) /\ c.driver = "gtiff") => ((o.photometric = "ycbcr") <=> (IsJpeg(c) /\ c.bands = 3)))
  \cup Cl("interleave", ("interleave" \in DOMAIN c.copts /\ c.bands > 1) => o.interleave = "BAND")
  \cup Cl("mask-or-nodata", o.nodata = Nodata(c) /\ o.flags = IF Masked(c) THEN <<"per_dataset">> ELSE <<"nodata">>)
  \cup Cl("overviews", OvwOpen(c) \/ \A b \in DOMAIN o.ovw : o.ovw[b] = OvwOf(c, o.size))

(* v: real value, x: stored value.  Away from ties, x is the nearest integer in the range of the data type *)
Converted(dt, v, x) ==
  IF dt \in {"float32", "float64"} THEN RNear(v, x, (RAbs(v) ++ 1) ** "1e-6")
  ELSE LET r == RangeOf(dt)  lim == RMin(RMax(v, R(r[1])), R(r[2])) IN RNear(lim, x, "0.55")

C07Failing(run) ==
  LET c == run.case  o == run.obs IN
  IF "outcome" \notin DOMAIN o \/ o.outcome \notin {"ok", "error", "skip"} THEN {"completes"}
  ELSE IF o.outcome = "skip" THEN {}
  ELSE IF c.kind = "levels" THEN Cl("overview-levels", o.levels = Levels(c.size))
  ELSE IF Rejected(c) THEN IF o.outcome = "ok" THEN {"unsupported-is-rejected"} ELSE Cl("rejected-with-orthority-error", o.orthority_error)
  ELSE IF o.outcome = "error" THEN {"completes"}
  ELSE FormatFailing(c, o)
       \cup (IF c.name = "conversion"
             THEN Cl("conversion", \A k \in DOMAIN o.pairs : Converted(c.dtype, o.pairs[k][1], o.pairs[k][2])) \cup Cl("conversion-sampled", Len(o.pairs) > 5)
             ELSE {})
=============================================================================
