------------------------------ MODULE Resample ------------------------------
(***************************************************************************)
(* What the images that a camera reads and remaps show.  Reading gives the *)
(* selected bands of an image file, in the selected data type; a camera    *)
(* that does not distort gives an undistorted image: the one a camera      *)
(* without distortion, and with the undistorted intrinsics, would take.    *)
(* Remapping gives, for each world point, the image at its projection.     *)
(* Where there is nothing to show, there is the nodata value of the        *)
(* caller (or, if there is none, that of the data type), and points where  *)
(* all bands have it are masked.                                           *)
(*                                                                         *)
(* A case is a scene of Ortho.tla without DEM, with                        *)
(*   out, indexes, nodata: the arguments of the calls ("none", <<>>: not   *)
(*   given); rows, cols, pts: the world points, row by row; dark: the      *)
(*   first band of the image that is remapped has the nodata value in part *)
(***************************************************************************)
EXTENDS Ortho

DefaultNodata(dtype) == CASE dtype \in {"uint8", "uint16"} -> "0" [] dtype = "int16" -> "-32768" [] OTHER -> "nan"
TypeOf(c) == IF c.out = "none" THEN c.dtype ELSE c.out
NodataOf(c) == IF c.nodata = "none" THEN DefaultNodata(TypeOf(c)) ELSE c.nodata
BandsOf(c) == IF c.indexes = <<>> THEN [b \in 1..c.bands |-> b] ELSE c.indexes
IsNodata(c, v) == IF NodataOf(c) = "nan" THEN v = "nan" ELSE v # "nan" /\ RNear(v, NodataOf(c), 0)

\* ------------------------------------------------------------------ reading
\* the source position that pixel u of the image that is read shows
ReadFrom(c, ps, u) == IF Undistorted(c) THEN ToPixel(ps.u.K, Distort(c.cam, FromPixel(ps.u.Ku, u))) ELSE u
SrcOf(c, b, ji) == IF c.src = "affine" THEN AffineSrc(b, ji[1], ji[2]) ELSE R(TextureSrc(b, ji[1], ji[2]))
ReadTol(c) == (R(2) ** (IF c.interp = "nearest" THEN "0.6" ELSE "0.075")) ++ (IF TypeOf(c) \in {"uint8", "uint16", "int16"} THEN "0.51" ELSE "0.01")
ReadOk(c, ps, p) ==
  IF ~Undistorted(c) THEN \A k \in DOMAIN p.v : p.v[k] # "nan" /\ RNear(p.v[k], SrcOf(c, BandsOf(c)[k], <<p.j, p.i>>), 0)
  ELSE LET ji == TLCEval(ReadFrom(c, ps, <<p.j, p.i>>)) IN
       /\ Inside(c.cam.size, ji, InterpMargin(c.interp)) => \A k \in DOMAIN p.v : p.v[k] # "nan" /\ RNear(p.v[k], AffineSrc(BandsOf(c)[k], ji[1], ji[2]), ReadTol(c))
       /\ ~Inside(c.cam.size, ji, "-1.1") => \A k \in DOMAIN p.v : IsNodata(c, p.v[k])

\* ---------------------------------------------------------------- remapping
ProjectOf(c, ps, w) == IF c.kind = "rpc" THEN RpcProject(ps.rpc, w) ELSE ProjectPrepared(ps.p, w)
\* positions of a point in the source, and in the image that is remapped
PlaceOf(c, ps, w) ==
  IF w[3] = "nan" THEN [gone |-> TRUE]
  ELSE LET ji == TLCEval(ProjectOf(c, ps, w))
           u == IF Undistorted(c) THEN TLCEval(ProjectPrepared(ps.u, w)) ELSE ji
       IN [gone |-> FALSE, ji |-> ji, u |-> u]
Deep(c, pl, m) == ~pl.gone /\ Inside(SizeOf(c), pl.ji, m) /\ Inside(SizeOf(c), pl.u, m)
Out(c, pl, m) == pl.gone \/ ~Inside(SizeOf(c), pl.ji, RNeg(m)) \/ ~Inside(SizeOf(c), pl.u, RNeg(m))
\* the points around point k of a grid, and k
Around(c, k) ==
  LET r == (k - 1) \div c.cols  q == (k - 1) % c.cols IN
  {1 + (a * c.cols) + b : a \in ({r - 1, r, r + 1} \cap 0..(c.rows - 1)), b \in ({q - 1, q, q + 1} \cap 0..(c.cols - 1))}
ShowsMargin(c) == R(InterpMargin(c.interp)) ++ (IF Undistorted(c) THEN "1.5" ELSE "0")
Shows(c, pls, k) == IF Undistorted(c) THEN \A n \in Around(c, k) : Deep(c, pls[n], ShowsMargin(c)) ELSE Deep(c, pls[k], ShowsMargin(c))
\* the values of an undistorted image are rounded twice
ShownOk(c, b, ji, v) ==
  IF Undistorted(c) THEN RNear(v, AffineSrc(b, ji[1], ji[2]), (R(AffineGradient(b)) ** PositionTol(c)) ++ (IF IntegerType(c) THEN "1.02" ELSE "0.01")) ELSE ValueOk(c, b, ji, v)
SurelyValid(c, pls, k) == IF Undistorted(c) THEN Shows(c, pls, k) ELSE Deep(c, pls[k], "0.2")
SurelyInvalid(c, pls, k) == Out(c, pls[k], IF Undistorted(c) THEN (R("1.5") ** InterpMargin(c.interp)) ++ 2 ELSE "1.1")
=============================================================================
