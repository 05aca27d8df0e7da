------------------------------- MODULE C06Gen -------------------------------
(* A content (what decides which pixels are valid), and the ways of encoding it. *)
EXTENDS Gen, Profile

Cams == << <<"pinhole", FALSE>>, <<"brown", TRUE>>, <<"rpc", FALSE>>, <<"brown", FALSE>>, <<"fisheye", FALSE>>, <<"opencv", TRUE>> >>
DSeq == <<"uint8", "uint16", "int16", "float32", "float64">>
BandSets == <<3, 1, 4, 2>>
Base == [per_band |-> FALSE, copts |-> <<>>, driver |-> "gtiff", compress |-> "deflate", ovw |-> FALSE, mask |-> "no"]
Tiles == << <<>>, [tiled |-> TRUE, blockxsize |-> 32, blockysize |-> 16], [tiled |-> FALSE, blockysize |-> 3], [tiled |-> TRUE, blockxsize |-> 64, blockysize |-> 64, interleave |-> "band", compress |-> "lzw"] >>

Content(n) ==
  LET dt == Pick(DSeq, n)  pan == n % 4 = 3 IN
  [kind |-> IF pan THEN "pan" ELSE "ortho", cam |-> Pick(Cams, Rnd(n, 6))[1], undistort |-> Pick(Cams, Rnd(n, 6))[2],
   interp |-> <<"cubic", "bilinear", "nearest", "average", "lanczos">>[1 + Rnd(n + 5, 5)], bands |-> Pick(BandSets, n \div 2), sdtype |-> dt,
   dtype |-> IF n % 3 = 0 THEN Pick(DSeq, n + 2) ELSE "auto", res |-> 8 + Rnd(n + 2, 9), kappa |-> Rnd(n + 1, 62), hole |-> pan \/ n % 5 # 4]
JpegOk(c) == DtypeOf(c) = "uint8"
Variants(c, n) ==
  << Base, [Base EXCEPT !.mask = "yes"], [Base EXCEPT !.mask = "yes", !.copts = Tiles[2]], [Base EXCEPT !.mask = "auto", !.compress = "lzw"],
     [Base EXCEPT !.mask = "yes", !.driver = "cog"], [Base EXCEPT !.driver = "cog", !.compress = "lzw"], [Base EXCEPT !.copts = Tiles[3]],
     [Base EXCEPT !.mask = "yes", !.copts = Pick(Tiles, n), !.ovw = TRUE], [Base EXCEPT !.copts = Pick(Tiles, n + 1), !.ovw = TRUE] >>
  \o (IF c.kind = "ortho"
      THEN << [Base EXCEPT !.per_band = TRUE], [Base EXCEPT !.per_band = TRUE, !.mask = "yes", !.copts = Pick(Tiles, n + 2)],
              [Base EXCEPT !.per_band = TRUE, !.mask = "yes", !.driver = "cog"] >> ELSE <<>>)
  \o (IF JpegOk(c) THEN << [Base EXCEPT !.mask = "auto", !.compress = "auto"], [Base EXCEPT !.mask = "yes", !.compress = "jpeg", !.driver = "cog"],
                           [Base EXCEPT !.mask = "auto", !.copts = [compress |-> "jpeg", tiled |-> TRUE, blockxsize |-> 64, blockysize |-> 32]],
                           [Base EXCEPT !.mask = "auto", !.compress = "jpeg", !.driver = "cog"],
                           [Base EXCEPT !.mask = "auto", !.copts = [interleave |-> "band"], !.compress = "jpeg"] >>
                         \o (IF c.kind = "ortho" THEN <<[Base EXCEPT !.mask = "auto", !.compress = "auto", !.per_band = TRUE]>> ELSE <<>>) ELSE <<>>)
BigVariants(c) ==
  << Base, [Base EXCEPT !.ovw = TRUE], [Base EXCEPT !.mask = "yes", !.ovw = TRUE], [Base EXCEPT !.mask = "yes", !.driver = "cog", !.ovw = TRUE],
     [Base EXCEPT !.driver = "cog", !.ovw = TRUE] >>
  \o (IF JpegOk(c) THEN << [Base EXCEPT !.mask = "auto", !.compress = "auto", !.ovw = TRUE], [Base EXCEPT !.mask = "auto", !.compress = "auto", !.driver = "cog", !.ovw = TRUE] >> ELSE <<>>)
  \o (IF c.kind = "ortho" THEN << [Base EXCEPT !.per_band = TRUE, !.mask = "yes", !.ovw = TRUE] >> ELSE <<>>)

GenCases ==
  [n \in 1..(IF Thorough THEN 220 ELSE 40) |-> LET c == Content(n) IN [name |-> "content-" \o ToString(n), content |-> c, variants |-> Variants(c, n)]]
  \o [n \in 1..(IF Thorough THEN 24 ELSE 8) |->
        LET c == [size |-> <<700 + 30 * n, 530 + 70 * n>>] @@ [Content(n) EXCEPT !.res = 1 + (n % 2), !.bands = 1 + 2 * (n % 2)] IN
        [name |-> "large-" \o ToString(n), content |-> c, variants |-> BigVariants(c)]]
=============================================================================
