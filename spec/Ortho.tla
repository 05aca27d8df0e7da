-------------------------------- MODULE Ortho --------------------------------
(***************************************************************************)
(* What an ortho image shows.  A scene is a camera, a source image that is *)
(* a known function of its pixel position, a DEM that is a known function  *)
(* of ground position, and processing options.  An ortho pixel with centre *)
(* (x, y) shows the source at the projection of (x, y, DEM height), and is *)
(* valid exactly when that is inside the source and the DEM is valid.      *)
(*                                                                         *)
(* A scene is a record with                                                *)
(*   kind     "frame" | "rpc"                                              *)
(*   cam / rpc, size                                                       *)
(*   dem      [kind, z0, ax, ay, cx, cy, x0, y0, rx, ry, nx, ny, hole]:    *)
(*            heights z0 + ax (x - cx) + ay (y - cy) ("plane"), or with    *)
(*            steps from cell to cell ("cells"), at DEM coordinates x, y;  *)
(*            cells of hole = <<col, row, cols, rows>> are invalid         *)
(*   src      "affine" | "texture"; bands; dtype                           *)
(*   res, interp, dem_interp, ...                                          *)
(* Observed points have world x, y, the DEM coordinates dx, dy of the same *)
(* point, and the vertical conversion z = kz * height + kd.                *)
(***************************************************************************)
EXTENDS Camera

\* --------------------------------------------------------------------- DEM
DemCol(d, p) == RFloorInt((p.dx -- d.x0) // d.rx)
DemRow(d, p) == RFloorInt((R(d.y0) -- p.dy) // d.ry)
CellStep(c, r) == 3 * ((7 * c + 11 * r) % 4)
DemHeight(d, p) ==
  IF d.kind = "cells" THEN R(d.z0) ++ CellStep(DemCol(d, p), DemRow(d, p))
  ELSE (R(d.z0) ++ (d.ax ** (p.dx -- d.cx))) ++ (d.ay ** (p.dy -- d.cy))
DemZ(d, p) == (p.kz ** DemHeight(d, p)) ++ p.kd
(* position in the DEM, in cells: inside with a margin m (m < 0: outside by -m) *)
InBox(d, p, c0, r0, nc, nr, m) ==
  LET c == (p.dx -- d.x0) // d.rx
      r == (R(d.y0) -- p.dy) // d.ry
  IN /\ (R(c0) ++ m) \preceq c /\ c \preceq (R(c0 + nc) -- m)
     /\ (R(r0) ++ m) \preceq r /\ r \preceq (R(r0 + nr) -- m)
DemInside(d, p, m) == InBox(d, p, 0, 0, d.nx, d.ny, m)
InHole(d, p, m) == d.hole # <<>> /\ InBox(d, p, d.hole[1], d.hole[2], d.hole[3], d.hole[4], m)
DemSurelyValid(d, p, m) == DemInside(d, p, m) /\ ~InHole(d, p, RNeg(m))
DemSurelyInvalid(d, p, m) == ~DemInside(d, p, RNeg(m)) \/ InHole(d, p, m)

\* --------------------------------------------------------------- projection
(* the camera that images the source: the undistortion of distort = FALSE moves nothing on the ground *)
PrepareScene(s) ==
  IF s.kind = "rpc" THEN [rpc |-> s.rpc]
  ELSE [p |-> Prepared([s.cam EXCEPT !.distort = TRUE]), u |-> Prepared(s.cam)]
(* pixel position of a ground point; g: its geographic coordinates (RPC) *)
PointPixel(s, ps, p, z) ==
  IF s.kind = "rpc" THEN RpcProject(ps.rpc, <<p.gx, p.gy, z>>)
  ELSE ProjectPrepared(ps.p, <<p.x, p.y, z>>)
UndistortedPixel(s, ps, p, z) == ProjectPrepared(ps.u, <<p.x, p.y, z>>)
InFront(s, ps, p, z) == s.kind = "rpc" \/ R(0) \prec ToImage(ps.p, <<p.x, p.y, z>>)[3]
SizeOf(s) == IF s.kind = "rpc" THEN s.size ELSE s.cam.size
Inside(size, ji, m) ==
  /\ R(m) \preceq ji[1] /\ ji[1] \preceq ((size[1] -- 1) -- m)
  /\ R(m) \preceq ji[2] /\ ji[2] \preceq ((size[2] -- 1) -- m)

\* ------------------------------------------------------------------- source
(* value of band b at integer or real pixel position j, i *)
AffineSrc(b, j, i) ==
  CASE b % 3 = 1 -> R(100) ++ (R(2) ** j)
    [] b % 3 = 2 -> R(90) ++ (R(2) ** i)
    [] OTHER -> ((R(60) ++ j) ++ i) ++ b
AffineGradient(b) == 2
TextureSrc(b, j, i) == 20 + 7 * ((5 * j + 11 * i + 3 * b) % 31)

(* OpenCV's interpolation kernels (bilinear, and bicubic with a = -0.75) *)
Cubic(t) ==
  LET a == R("-0.75")  x == RAbs(t) IN
  IF x \preceq 1 THEN ((((a ++ 2) ** x) -- (a ++ 3)) ** (x ** x)) ++ 1
  ELSE IF x \prec 2 THEN (((((a ** x) -- (R(5) ** a)) ** x) ++ (R(8) ** a)) ** x) -- (R(4) ** a)
  ELSE R(0)
Linear(t) == LET x == RAbs(t) IN IF x \prec 1 THEN R(1) -- x ELSE R(0)
KernelSum(k(_), lo, hi, b, j, i) ==
  LET j0 == RFloorInt(j)  i0 == RFloorInt(i)
      n == hi - lo + 1
      term(q) == LET dj == lo + ((q - 1) % n)  di == lo + ((q - 1) \div n) IN
        (k(j -- (j0 + dj)) ** k(i -- (i0 + di))) ** TextureSrc(b, j0 + dj, i0 + di)
  IN RSum([q \in 1..(n * n) |-> term(q)])
(* the expected value of a texture source, interpolated at j, i away from the image edge *)
TextureAt(interp, b, ji) ==
  CASE interp = "nearest" -> R(TextureSrc(b, RRoundInt(ji[1]), RRoundInt(ji[2])))
    [] interp \in {"bilinear", "average"} -> KernelSum(Linear, 0, 1, b, ji[1], ji[2])
    [] interp = "cubic" -> KernelSum(Cubic, -1, 2, b, ji[1], ji[2])
(* how far from the image border an interpolated value does not depend on what is beyond the border *)
InterpMargin(interp) == CASE interp = "nearest" -> "0.6" [] interp \in {"bilinear", "average"} -> "1.1"
                          [] interp = "cubic" -> "2.6" [] interp = "lanczos" -> "4.6"
TieMargin(x) == LET f == x -- RFloorInt(x) IN RAbs(f -- "0.5")

(* Tolerance in source pixels of the position a value encodes: OpenCV has 1/32 pixel steps; nearest and  *)
(* undistorted sources are within half a pixel for each interpolation.                                  *)
PositionTol(s) ==
  LET near == s.interp = "nearest"
      und == s.kind = "frame" /\ ~s.cam.distort /\ s.cam.type # "pinhole"
  IN IF near THEN IF und THEN "1.35" ELSE "0.55" ELSE IF und THEN "0.15" ELSE "0.06"
IntegerType(s) == s.dtype \in {"uint8", "uint16", "int16"}

(* the value v observed for band b is the source interpolated at ji *)
ValueOk(s, b, ji, v) ==
  IF s.src = "affine"
  THEN RNear(v, AffineSrc(b, ji[1], ji[2]),
             (R(AffineGradient(b)) ** PositionTol(s)) ++ (IF IntegerType(s) THEN "0.51" ELSE "0.01"))
  ELSE IF s.interp = "nearest"
       THEN TieMargin(ji[1]) \prec "0.04" \/ TieMargin(ji[2]) \prec "0.04" \/ RNear(v, TextureAt(s.interp, b, ji), "0.01")
       ELSE RNear(v, TextureAt(s.interp, b, ji), "8")

\* ------------------------------------------------------- validity of a point
(* margins, in source pixels (footprint) and DEM cells, within which validity is left open *)
Undistorted(s) == s.kind = "frame" /\ ~s.cam.distort /\ s.cam.type # "pinhole"
OuterMargin(s, ratio) == ((R("2.2") ** RMax(1, ratio)) ++ s.slack) ++ (IF Undistorted(s) THEN "4.5" ELSE "0.6")
InnerMargin(s, ratio) == ((R("0.8") ** ratio) ++ s.slack) ++ (IF Undistorted(s) THEN "4.5" ELSE "0.1")
=============================================================================
