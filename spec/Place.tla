------------------------------- MODULE Place --------------------------------
(***************************************************************************)
(* Places on the earth: UTM zones, transverse Mercator coordinates on the  *)
(* WGS84 ellipsoid (Krueger series), and orientations of cameras there.    *)
(*                                                                         *)
(* A projection is a record [lon0, k0, e0, n0] (degrees, and metres).      *)
(* Rotations are matrices from the camera (x right, y up, z back) to the   *)
(* world (x east, y north, z up), as OpkRotation of Camera is.             *)
(***************************************************************************)
EXTENDS Camera

\* ------------------------------------------------------------- projection
SemiMajor == "6378137.0"
Flattening == R(1) // "298.257223563"
N1 == Flattening // (R(2) -- Flattening)
N2 == N1 ** N1
N3 == N2 ** N1
N4 == N2 ** N2
N5 == N4 ** N1
Ecc == RSqrt(Flattening ** (R(2) -- Flattening))
Rectifying == (SemiMajor // (R(1) ++ N1)) ** (((R(1) ++ (N2 // 4)) ++ (N4 // 64)) ++ ((N4 ** N2) // 256))
Frac(a, b) == R(a) // R(b)
Alpha == <<
  ((((N1 // 2) -- (Frac(2, 3) ** N2)) ++ (Frac(5, 16) ** N3)) ++ (Frac(41, 180) ** N4)) -- (Frac(127, 288) ** N5),
  (((Frac(13, 48) ** N2) -- (Frac(3, 5) ** N3)) ++ (Frac(557, 1440) ** N4)) ++ (Frac(281, 630) ** N5),
  ((Frac(61, 240) ** N3) -- (Frac(103, 140) ** N4)) ++ (Frac(15061, 26880) ** N5),
  (Frac(49561, 161280) ** N4) -- (Frac(179, 168) ** N5),
  Frac(34729, 80640) ** N5 >>

Sinh(a) == (RExp(a) -- RExp(RNeg(a))) // 2
Cosh(a) == (RExp(a) ++ RExp(RNeg(a))) // 2
Atanh(a) == RLog((R(1) ++ a) // (R(1) -- a)) // 2

\* longitude in degrees, from lon0, within [-180, 180)
Wrap(a) == (a -- (R(360) ** R(RFloorInt((a ++ 180) // 360))))
Project2(p, lat, lon) ==
  LET phi == Deg(lat)
      lam == Deg(Wrap(lon -- p.lon0))
      t == Sinh(Atanh(RSin(phi)) -- (Ecc ** Atanh(Ecc ** RSin(phi))))
      xi == RAtan2(t, RCos(lam))
      eta == Atanh(RSin(lam) // RSqrt(R(1) ++ (t ** t)))
      x == eta ++ RSum([j \in 1..5 |-> Alpha[j] ** (RCos(R(2 * j) ** xi) ** Sinh(R(2 * j) ** eta))])
      y == xi ++ RSum([j \in 1..5 |-> Alpha[j] ** (RSin(R(2 * j) ** xi) ** Cosh(R(2 * j) ** eta))])
  IN TLCEval(<<p.e0 ++ (p.k0 ** (Rectifying ** x)), p.n0 ++ (p.k0 ** (Rectifying ** y))>>)

\* ------------------------------------------------------------------- UTM
Zone(lon) == (RFloorInt((lon ++ 180) // 6) % 60) + 1
South(lat) == lat \prec 0
UtmOf(zone, south) == [lon0 |-> R(6 * zone - 183), k0 |-> "0.9996", e0 |-> "500000", n0 |-> IF south THEN "10000000" ELSE "0"]
UtmCode(zone, south) == (IF south THEN 32700 ELSE 32600) + zone
(* the mean of positions; longitudes on both sides of the antimeridian are taken the short way round *)
MeanPlace(places) ==
  LET n == Len(places)
      lons == [i \in 1..n |-> places[i][2]]
      spread == MaxOf(lons) -- MinOf(lons)
      way == [i \in 1..n |-> IF (R(180) \prec spread) /\ (lons[i] \prec 0) THEN lons[i] ++ 360 ELSE lons[i]]
  IN <<RSum([i \in 1..n |-> places[i][1]]) // n, Wrap(RSum(way) // n)>>
UtmCodeAt(places) == LET m == MeanPlace(places) IN UtmCode(Zone(m[2]), South(m[1]))

\* ----------------------------------------------------------- orientations
(* direction of north in the plane of the projection *)
North(p, lat, lon) ==
  LET d == "0.0001"
      a == Project2(p, lat ++ d, lon)
      b == Project2(p, lat -- d, lon)
      v == <<a[1] -- b[1], a[2] -- b[2]>>
      m == RSqrt((v[1] ** v[1]) ++ (v[2] ** v[2]))
  IN TLCEval(<<v[1] // m, v[2] // m>>)
(* roll, pitch and yaw (degrees) rotate the body from north, east, down; the top of the image is to the front of the body *)
RpyRotation(p, lat, lon, rpy) ==
  LET n == North(p, lat, lon)
      ned == <<<<n[1], n[2], 0>>, <<n[2], RNeg(n[1]), 0>>, <<0, 0, -1>>>>       \* columns: north, east, down
      body == MulMM(MulMM(RotZ(Deg(rpy[3])), RotY(Deg(rpy[2]))), RotX(Deg(rpy[1])))
  IN MulMM(MulMM(ned, body), <<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, -1>>>>)
OpkDegRotation(opk) == OpkRotation(<<Deg(opk[1]), Deg(opk[2]), Deg(opk[3])>>)
(* angle-axis vector, from the world to the image (x right, y down, z forward) *)
Rodrigues(v) ==
  LET a == RSqrt(Dot3(v, v))
      k == IF REq(a, 0) THEN <<0, 0, 0>> ELSE <<v[1] // a, v[2] // a, v[3] // a>>
      c == RCos(a)
      s == RSin(a)
      x == <<<<0, RNeg(k[3]), k[2]>>, <<k[3], 0, RNeg(k[1])>>, <<RNeg(k[2]), k[1], 0>>>>
  IN TLCEval([i \in 1..3 |-> [j \in 1..3 |-> ((IF i = j THEN c ELSE R(0)) ++ ((R(1) -- c) ** (k[i] ** k[j]))) ++ (s ** x[i][j])]])
AaRotation(aa) == MulMM(Transpose(Rodrigues(aa)), <<<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>>>)
(* position, relative to the reference, of a camera with this angle-axis rotation and translation *)
AaPosition(aa, t) == LET m == MulMV(Transpose(Rodrigues(aa)), t) IN <<RNeg(m[1]), RNeg(m[2]), RNeg(m[3])>>

SameRotation(a, b, tol) == \A i, j \in 1..3 : RNear(a[i][j], b[i][j], tol)
=============================================================================
