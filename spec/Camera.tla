------------------------------- MODULE Camera -------------------------------
(***************************************************************************)
(* The camera models: what orthority documents about world to pixel        *)
(* projection for frame cameras (pinhole, Brown, OpenCV and fisheye) and   *)
(* RPC cameras.                                                            *)
(*                                                                         *)
(* A frame camera is a record with                                         *)
(*   type      "pinhole" | "brown" | "opencv" | "fisheye"                  *)
(*   size      <<width, height>> of the image in pixels                    *)
(*   focal     <<fx, fy>> focal lengths                                    *)
(*   sensor    <<width, height>> in the units of focal, or <<>> when the   *)
(*             focal length is normalised by the largest sensor dimension  *)
(*   c         <<cx, cy>> principal point offset, normalised by the        *)
(*             largest image dimension                                     *)
(*   dist      record of distortion coefficients (those not 0)             *)
(*   xyz, opk  position, and omega, phi, kappa in degrees                  *)
(*   distort   FALSE: the source image is undistorted first                *)
(*   alpha     scaling of the undistorted image                            *)
(***************************************************************************)
EXTENDS Real64, Naturals, Integers, Sequences, TLC

\* ---------------------------------------------------------------- algebra
Dot3(a, b) == ((a[1] ** b[1]) ++ (a[2] ** b[2])) ++ (a[3] ** b[3])
Col(m, k) == <<m[1][k], m[2][k], m[3][k]>>
MulMV(m, v) == <<Dot3(m[1], v), Dot3(m[2], v), Dot3(m[3], v)>>
Transpose(m) == <<Col(m, 1), Col(m, 2), Col(m, 3)>>
MulMM(a, b) == LET t == Transpose(b) IN
  TLCEval([r \in 1..3 |-> [c \in 1..3 |-> Dot3(a[r], t[c])]])
Sub3(a, b) == <<a[1] -- b[1], a[2] -- b[2], a[3] -- b[3]>>

\* ------------------------------------------------------------------- pose
(* rotations about the axes, by angles in radians *)
RotX(a) == LET c == RCos(a) s == RSin(a) IN <<<<1, 0, 0>>, <<0, c, RNeg(s)>>, <<0, s, c>>>>
RotY(a) == LET c == RCos(a) s == RSin(a) IN <<<<c, 0, s>>, <<0, 1, 0>>, <<RNeg(s), 0, c>>>>
RotZ(a) == LET c == RCos(a) s == RSin(a) IN <<<<c, RNeg(s), 0>>, <<s, c, 0>>, <<0, 0, 1>>>>
(* photogrammetric omega, phi, kappa: camera axes (x right, y up, z back) to world axes *)
OpkRotation(opk) == MulMM(MulMM(RotX(opk[1]), RotY(opk[2])), RotZ(opk[3]))
(* image axes (x right, y down, z into the scene) to world axes *)
ImageRotation(opk) == MulMM(OpkRotation(opk), <<<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>>>)
OpkRad(cam) == <<Deg(cam.opk[1]), Deg(cam.opk[2]), Deg(cam.opk[3])>>

\* --------------------------------------------------------------- interior
MaxSize(cam) == RMax(cam.size[1], cam.size[2])
(* focal lengths in pixels, and principal point, in a frame where pixel centres are integers *)
Intrinsic(cam) ==
  LET f(k) == IF cam.sensor = <<>> THEN cam.focal[k] ** MaxSize(cam)
              ELSE (cam.focal[k] ** cam.size[k]) // cam.sensor[k]
      c(k) == ((cam.size[k] -- 1) // 2) ++ (MaxSize(cam) ** cam.c[k])
  IN [f |-> <<f(1), f(2)>>, c |-> <<c(1), c(2)>>]
ToPixel(K, xy) == <<(K.f[1] ** xy[1]) ++ K.c[1], (K.f[2] ** xy[2]) ++ K.c[2]>>
FromPixel(K, ji) == <<(ji[1] -- K.c[1]) // K.f[1], (ji[2] -- K.c[2]) // K.f[2]>>

Coeff(cam, k) == IF k \in DOMAIN cam.dist THEN cam.dist[k] ELSE 0

\* ------------------------------------------------------------- distortion
Sq(a) == a ** a
(* radial and tangential (decentering) distortion of normalised coordinates *)
BrownDistort(cam, xy) ==
  LET x == xy[1]  y == xy[2]
      r2 == Sq(x) ++ Sq(y)
      p1 == Coeff(cam, "p1")  p2 == Coeff(cam, "p2")
      num == R(1) ++ (r2 ** (Coeff(cam, "k1") ++ (r2 ** (Coeff(cam, "k2")
                     ++ (r2 ** Coeff(cam, "k3"))))))
      den == R(1) ++ (r2 ** (Coeff(cam, "k4") ++ (r2 ** (Coeff(cam, "k5")
                     ++ (r2 ** Coeff(cam, "k6"))))))
      rad == num // den
      xx == (x ** rad) ++ (((R(2) ** p1) ** (x ** y))
              ++ (p2 ** (r2 ++ (R(2) ** Sq(x)))))
      yy == (y ** rad) ++ ((p1 ** (r2 ++ (R(2) ** Sq(y))))
              ++ ((R(2) ** p2) ** (x ** y)))
  IN <<xx ++ ((Coeff(cam, "s1") ** r2) ++ (Coeff(cam, "s2") ** Sq(r2))),
       yy ++ ((Coeff(cam, "s3") ** r2) ++ (Coeff(cam, "s4") ** Sq(r2)))>>
(* OpenCV's tilted sensor, for tx, ty # 0 *)
Tilt(cam, xy) ==
  LET cx == RCos(Coeff(cam, "tx"))  sx == RSin(Coeff(cam, "tx"))
      cy == RCos(Coeff(cam, "ty"))  sy == RSin(Coeff(cam, "ty"))
      rx == <<<<1, 0, 0>>, <<0, cx, sx>>, <<0, RNeg(sx), cx>>>>
      ry == <<<<cy, 0, RNeg(sy)>>, <<0, 1, 0>>, <<sy, 0, cy>>>>
      r == MulMM(ry, rx)
      p == <<<<r[3][3], 0, RNeg(r[1][3])>>, <<0, r[3][3], RNeg(r[2][3])>>, <<0, 0, 1>>>>
      v == MulMV(MulMM(p, r), <<xy[1], xy[2], 1>>)
  IN <<v[1] // v[3], v[2] // v[3]>>
FisheyeDistort(cam, xy) ==
  LET r == RSqrt(Sq(xy[1]) ++ Sq(xy[2]))
      t == RAtan(r)
      t2 == Sq(t)
      td == t ** (R(1) ++ (t2 ** (Coeff(cam, "k1") ++ (t2 ** (Coeff(cam, "k2") ++
              (t2 ** (Coeff(cam, "k3") ++ (t2 ** Coeff(cam, "k4")))))))))
      s == IF REq(r, 0) THEN R(1) ELSE td // r
  IN <<xy[1] ** s, xy[2] ** s>>
Distort(cam, xy) ==
  CASE cam.type = "pinhole" -> xy
    [] cam.type = "brown" -> BrownDistort(cam, xy)
    [] cam.type = "opencv" -> Tilt(cam, BrownDistort(cam, xy))
    [] cam.type = "fisheye" -> FisheyeDistort(cam, xy)

(* The inverse of Distort, by fixed point iteration (fisheye: on the angle). *)
RECURSIVE Iterate(_, _, _, _)
Iterate(cam, target, xy, n) ==
  IF n = 0 THEN xy
  ELSE LET d == TLCEval(Distort(cam, xy)) IN
       Iterate(cam, target, TLCEval(<<xy[1] ++ (target[1] -- d[1]), xy[2] ++ (target[2] -- d[2])>>), n - 1)
RECURSIVE IterateTheta(_, _, _, _)
IterateTheta(cam, td, t, n) ==
  IF n = 0 THEN t
  ELSE LET t2 == Sq(t)
           p == R(1) ++ (t2 ** (Coeff(cam, "k1") ++ (t2 ** (Coeff(cam, "k2") ++
                  (t2 ** (Coeff(cam, "k3") ++ (t2 ** Coeff(cam, "k4"))))))))
       IN IterateTheta(cam, td, TLCEval(td // p), n - 1)
Undistort(cam, xy) ==
  CASE cam.type = "pinhole" -> xy
    [] cam.type \in {"brown", "opencv"} -> Iterate(cam, xy, xy, 40)
    [] cam.type = "fisheye" ->
         LET td == RSqrt(Sq(xy[1]) ++ Sq(xy[2])) IN
         IF REq(td, 0) THEN xy
         ELSE LET s == RTan(IterateTheta(cam, td, td, 60)) // td IN <<xy[1] ** s, xy[2] ** s>>

(* Intrinsic of the undistorted image: between the largest rectangle inside the undistorted image  *)
(* (alpha = 0) and the smallest rectangle that contains it (alpha = 1), found on a 9 x 9 grid.     *)
RECURSIVE Fold(_, _, _, _)
Fold(op(_, _), s, acc, n) == IF n = 0 THEN acc ELSE Fold(op, s, op(acc, s[n]), n - 1)
MinOf(s) == Fold(RMin, s, s[1], Len(s))
MaxOf(s) == Fold(RMax, s, s[1], Len(s))
UndistortIntrinsic(cam) ==
  IF cam.type = "pinhole" THEN Intrinsic(cam)
  ELSE
  LET K == Intrinsic(cam)
      at(a, b) == Undistort(cam, FromPixel(K, <<(R(a) ** (cam.size[1] -- 1)) // 8,
                                                 (R(b) ** (cam.size[2] -- 1)) // 8>>))
      g == TLCEval([n \in 1..81 |-> at((n - 1) % 9, (n - 1) \div 9)])
      left == [n \in 1..9 |-> g[(n - 1) * 9 + 1][1]]     right == [n \in 1..9 |-> g[n * 9][1]]
      top == [n \in 1..9 |-> g[n][2]]                    bottom == [n \in 1..9 |-> g[72 + n][2]]
      xs == [n \in 1..81 |-> g[n][1]]                    ys == [n \in 1..81 |-> g[n][2]]
      in0 == <<MaxOf(left), MaxOf(top)>>       in1 == <<MinOf(right), MinOf(bottom)>>
      out0 == <<MinOf(xs), MinOf(ys)>>         out1 == <<MaxOf(xs), MaxOf(ys)>>
      al == RMin(RMax(cam.alpha, 0), 1)
      mix(a, b) == (a ** (R(1) -- al)) ++ (b ** al)
      f(lo, hi, k) == (cam.size[k] -- 1) // (hi[k] -- lo[k])
      c(lo, hi, k) == RNeg(f(lo, hi, k) ** lo[k])
  IN [f |-> <<mix(f(in0, in1, 1), f(out0, out1, 1)), mix(f(in0, in1, 2), f(out0, out1, 2))>>,
      c |-> <<mix(c(in0, in1, 1), c(out0, out1, 1)), mix(c(in0, in1, 2), c(out0, out1, 2))>>]

\* ------------------------------------------------------------- projection
(* A camera with what depends on its parameters only computed once. *)
Prepared(cam) == TLCEval([cam |-> cam, Rt |-> Transpose(ImageRotation(OpkRad(cam))), K |-> Intrinsic(cam),
                  Ku |-> IF cam.distort THEN Intrinsic(cam) ELSE UndistortIntrinsic(cam)])
(* world point to image axes *)
ToImage(p, w) == MulMV(p.Rt, Sub3(w, p.cam.xyz))
ProjectPrepared(p, w) ==
  LET v == ToImage(p, w)
      xy == <<v[1] // v[3], v[2] // v[3]>>
  IN IF p.cam.distort THEN ToPixel(p.K, Distort(p.cam, xy)) ELSE ToPixel(p.Ku, xy)
Project(cam, w) == ProjectPrepared(Prepared(cam), w)
(* the point of a pixel's ray at height z (through the undistorted coordinates of the pixel) *)
RayAt(p, xy, z) ==
  LET d == MulMV(Transpose(p.Rt), <<xy[1], xy[2], 1>>)
      s == (z -- p.cam.xyz[3]) // d[3]
  IN <<p.cam.xyz[1] ++ (d[1] ** s), p.cam.xyz[2] ++ (d[2] ** s), R(z)>>
BackProjectPrepared(p, ji, z) ==
  RayAt(p, IF p.cam.distort THEN Undistort(p.cam, FromPixel(p.K, ji)) ELSE FromPixel(p.Ku, ji), z)

\* -------------------------------------------------------------------- RPC
(* The 20 terms of the RPC00B cubic polynomials in normalised longitude x, latitude y, height z *)
RpcTerms(x, y, z) ==
  << R(1), x, y, z, x ** y, x ** z, y ** z, Sq(x), Sq(y), Sq(z),
     (x ** y) ** z, Sq(x) ** x, x ** Sq(y), x ** Sq(z), Sq(x) ** y,
     Sq(y) ** y, y ** Sq(z), Sq(x) ** z, Sq(y) ** z, Sq(z) ** z >>
Poly(c, t) == RSum([k \in 1..20 |-> c[k] ** t[k]])
(* rpc: record of the RPC parameters; w: <<longitude, latitude, ellipsoidal height>> *)
RpcProject(rpc, w) ==
  LET x == (w[1] -- rpc.long_off) // rpc.long_scale
      y == (w[2] -- rpc.lat_off) // rpc.lat_scale
      z == (w[3] -- rpc.height_off) // rpc.height_scale
      t == RpcTerms(x, y, z)
      j == Poly(rpc.samp_num_coeff, t) // Poly(rpc.samp_den_coeff, t)
      i == Poly(rpc.line_num_coeff, t) // Poly(rpc.line_den_coeff, t)
  IN <<(j ** rpc.samp_scale) ++ rpc.samp_off, (i ** rpc.line_scale) ++ rpc.line_off>>
=============================================================================
