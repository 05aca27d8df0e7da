------------------------------ MODULE C01Trace ------------------------------
EXTENDS Judge, Ortho

(* the bands of a point whose value is not the source at the projection of the point *)
\* away from the borders of the cells of a DEM with steps
Mid(q) == LET f == q -- R(RFloorInt(q)) IN "0.04" \preceq f /\ f \preceq "0.96"
ClearCell(s, p) == s.dem.kind # "cells" \/ (Mid((p.dx -- s.dem.x0) // s.dem.rx) /\ Mid((R(s.dem.y0) -- p.dy) // s.dem.ry))
PointBad(s, ps, p) ==
  LET z == TLCEval(DemZ(s.dem, p))
      ji == TLCEval(PointPixel(s, ps, p, z))
      und == s.kind = "frame" /\ ~s.cam.distort /\ s.cam.type # "pinhole"
      chk == /\ p.valid /\ DemSurelyValid(s.dem, p, 4) /\ ClearCell(s, p)
             /\ Inside(SizeOf(s), ji, R(InterpMargin(s.interp)) ++ (IF und THEN "1.5" ELSE "0"))
             /\ (und => Inside(SizeOf(s), UndistortedPixel(s, ps, p, z), R(InterpMargin(s.interp)) ++ "1.5"))
  IN [checked |-> chk, bands |-> IF chk THEN {b \in 1..Len(p.v) : ~ValueOk(s, b, ji, p.v[b])} ELSE {}]

C01Failing(run) ==
  LET s == run.case IN
  IF ~Completed(run) THEN {"completes"}
  ELSE LET ps == PrepareScene(s)
           res == TLCEval([k \in 1..Len(run.obs.points) |-> PointBad(s, ps, run.obs.points[k])])
           chk == {k \in DOMAIN res : res[k].checked}
       IN Cl("bands", run.obs.meta.count = s.bands)
          \cup Cl("shows-imagery", Cardinality(chk) >= 40)
          \cup UNION {{"band" \o ToString(b) \o "-shows-projected-source" : b \in res[k].bands} : k \in chk}
=============================================================================
