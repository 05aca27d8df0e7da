------------------------------ MODULE C02Trace ------------------------------
EXTENDS Judge, Ortho

(* Ground sampling distance: the square root of the ground area per pixel, of the polygon through the image  *)
(* corners and edge middles, at the height of the ground.                                                    *)
Area(q) == RAbs(RSum([k \in 1..Len(q) |-> LET n == 1 + (k % Len(q)) IN (q[k][1] ** q[n][2]) -- (q[n][1] ** q[k][2])])) // 2
Boundary(size) == LET w == R(size[1]) -- 1  h == R(size[2]) -- 1 IN
  << <<R(0), R(0)>>, <<w // 2, R(0)>>, <<w, R(0)>>, <<w, h // 2>>, <<w, h>>, <<w // 2, h>>, <<R(0), h>>, <<R(0), h // 2>> >>
Gsd(s, ps) ==
  LET b == TLCEval(Boundary(s.cam.size))
      z == R(s.dem.z0)
      g == TLCEval([k \in 1..8 |-> LET q == BackProjectPrepared(ps.p, b[k], z) IN <<q[1] -- s.cam.xyz[1], q[2] -- s.cam.xyz[2]>>])
      \* with an undistorted source, the boundary is measured in the undistorted image
      lim(x, n) == RMin(RMax(x, 0), R(s.cam.size[n]) -- 1)
      px == IF s.cam.distort THEN b
            ELSE TLCEval([k \in 1..8 |-> LET q == BackProjectPrepared(ps.p, b[k], z)  u == ProjectPrepared(ps.u, q) IN <<lim(u[1], 1), lim(u[2], 2)>>])
      gu == IF s.cam.distort THEN g
            ELSE TLCEval([k \in 1..8 |-> LET q == BackProjectPrepared(ps.u, px[k], z) IN <<q[1] -- s.cam.xyz[1], q[2] -- s.cam.xyz[2]>>])
  IN RSqrt(Area(gu) // Area(px))

PointClass(s, ps, m, mo, p, dm) ==
  LET z == TLCEval(DemZ(s.dem, p))
      ji == TLCEval(PointPixel(s, ps, p, z))
      und == s.kind = "frame" /\ ~s.cam.distort /\ s.cam.type # "pinhole"
      uji == IF und THEN TLCEval(UndistortedPixel(s, ps, p, z)) ELSE ji
      front == InFront(s, ps, p, z)
      inside == front /\ Inside(SizeOf(s), ji, m) /\ Inside(SizeOf(s), uji, m) /\ DemSurelyValid(s.dem, p, dm)
      outside == ~front \/ ~Inside(SizeOf(s), ji, RNeg(mo)) \/ ~Inside(SizeOf(s), uji, RNeg(mo)) \/ DemSurelyInvalid(s.dem, p, dm)
  IN IF inside THEN "in" ELSE IF outside THEN "out" ELSE "edge"

GridFailing(s, o) ==
  LET t == o.meta.transform IN
  Cl("north-up", REq(t[2], 0) /\ REq(t[4], 0) /\ R(0) \prec t[1] /\ t[5] \prec 0)
  \cup Cl("crs", o.meta.crs_ok)
  \cup (IF s.res # <<>> THEN Cl("resolution", RNear(t[1], s.res[1], RAbs(t[1]) ** "1e-9") /\ RNear(RNeg(t[5]), s.res[2], RAbs(t[5]) ** "1e-9"))
        ELSE Cl("square-auto-resolution", RNear(t[1], RNeg(t[5]), t[1] ** "1e-9")))

C02Failing(run) ==
  LET s == run.case  o == run.obs IN
  IF "outcome" \notin DOMAIN o \/ o.outcome \notin {"ok", "error"} THEN {"completes"}
  ELSE IF s.cover = "none"
       THEN IF o.outcome = "ok" THEN {"not-covered-is-an-error"} ELSE Cl("not-covered-is-an-orthority-error", o.orthority_error)
  ELSE IF o.outcome = "error" THEN {"completes"}
  ELSE LET ps == PrepareScene(s)
           t == o.meta.transform
           ratio == o.ratio
           m == TLCEval(InnerMargin(s, ratio))
           mo == TLCEval(OuterMargin(s, ratio))
           \* DEM edges: interpolation reaches up to 4 DEM cells, and an ortho pixel
           dm == IF s.dem_interp \in {"nearest", "bilinear"} THEN "1.6" ELSE "2.6"
           cls == TLCEval([k \in 1..Len(o.points) |-> PointClass(s, ps, m, mo, o.points[k], dm)])
           ins == {k \in DOMAIN cls : cls[k] = "in"}
           near(k) == o.points[k].inside /\ cls[k] # "out"
           side(f(_)) == \E k \in DOMAIN cls : f(o.points[k]) /\ cls[k] # "out"
       IN GridFailing(s, o)
          \cup Cl("footprint-is-valid", \A k \in ins : o.points[k].inside /\ o.points[k].valid)
          \cup Cl("nothing-else-is-valid", \A k \in DOMAIN cls : cls[k] = "out" => ~o.points[k].valid)
          \cup Cl("shows-imagery", Cardinality(ins) >= 15)
          \cup Cl("cropped", /\ side(LAMBDA p : p.c = 0) /\ side(LAMBDA p : p.c = o.meta.width - 1)
                             /\ side(LAMBDA p : p.r = 0) /\ side(LAMBDA p : p.r = o.meta.height - 1))
          \cup Cl("warns-if-not-covered", s.cover = "partial" => o.warned)
          \* The ortho grid is laid out from the DEM cells that contain the footprint.  A pixel size that does not
          \* divide them can put the centres of the last row or column, which the rounded footprint may touch,
          \* beyond these cells: then there is a warning although no part of the footprint is lost.
          \cup Cl("does-not-warn-if-covered", s.cover = "full" /\ s.res = <<s.dem.rx, s.dem.ry>> => ~o.warned)
          \cup (IF s.res = <<>> THEN Cl("auto-resolution", RNear(t[1], Gsd(s, ps), t[1] ** "0.002")) ELSE {})
          \cup (IF "far" \notin DOMAIN s THEN {}
                ELSE Cl("far-terrain-does-not-matter", \A k \in ins :
                          LET p == o.points[k] IN
                          p.valid => LET ji == TLCEval(PointPixel(s, ps, p, DemZ(s.dem, p))) IN
                                     Inside(SizeOf(s), ji, InterpMargin(s.interp)) => \A b \in 1..Len(p.v) : ValueOk(s, b, ji, p.v[b])))
=============================================================================
