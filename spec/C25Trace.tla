------------------------------ MODULE C25Trace ------------------------------
EXTENDS Judge, Resample

RemapFailing(c, ps, o) ==
  LET s == [c EXCEPT !.dtype = TypeOf(c)]
      n == Len(c.pts)
      pls == TLCEval([k \in 1..n |-> PlaceOf(c, ps, c.pts[k])])
      bands == BandsOf(c)
      empty(k) == \A b \in DOMAIN bands : IsNodata(c, o.points[k].v[b])
  IN IF o.remap.shape # <<Len(bands), c.rows, c.cols>> \/ o.remap.mask # <<c.rows, c.cols>> THEN {"remap-shape"}
     ELSE Cl("remap-type", o.remap.dtype = TypeOf(c))
          \cup Cl("mask-is-nodata", \A k \in 1..n : o.points[k].m <=> empty(k))
          \cup Cl("valid-inside", \A k \in 1..n : SurelyValid(c, pls, k) => ~o.points[k].m)
          \cup Cl("nodata-outside", \A k \in 1..n : SurelyInvalid(c, pls, k) => empty(k))
          \cup Cl("shows-projected-source", \A k \in 1..n : Shows(c, pls, k) => \A b \in (DOMAIN bands) \ (IF c.dark THEN {1} ELSE {}) : o.points[k].v[b] # "nan" /\ ShownOk(s, bands[b], pls[k].ji, o.points[k].v[b]))
          \* the case decides something
          \cup Cl("case-decides", Undistorted(c) \/ (Cardinality({k \in 1..n : Shows(c, pls, k)}) >= 20 /\ \E k \in 1..n : SurelyInvalid(c, pls, k)))
C25Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE
  LET c == run.case  o == run.obs  ps == PrepareScene(c) IN
  IF c.spoil # "none" THEN Cl("rejects", o.error = "ValueError")
  ELSE IF o.error # "" THEN {"works"}
  ELSE Cl("inputs-unchanged", o.unchanged)
       \cup (IF o.read.shape # <<Len(BandsOf(c)), SizeOf(c)[2], SizeOf(c)[1]>> THEN {"read-shape"}
             ELSE Cl("read-type", o.read.dtype = TypeOf(c)) \cup Cl("reads-source", \A k \in DOMAIN o.read.points : ReadOk(c, ps, o.read.points[k])))
       \cup RemapFailing(c, ps, o)
=============================================================================
