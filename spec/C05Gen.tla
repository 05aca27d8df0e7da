------------------------------- MODULE C05Gen -------------------------------
(* A content: what decides the georeferencing, validity and values of an ortho.  A variant: how the same content is computed and encoded. *)
EXTENDS Gen, Profile

Cams == << <<"pinhole", FALSE>>, <<"brown", FALSE>>, <<"brown", TRUE>>, <<"rpc", FALSE>>, <<"fisheye", TRUE>>, <<"opencv", FALSE>>, <<"fisheye", FALSE>>, <<"opencv", TRUE>> >>
Interps == <<"cubic", "nearest", "bilinear", "lanczos", "average">>
Types == << <<"uint8", "auto">>, <<"uint16", "auto">>, <<"uint8", "float32">>, <<"int16", "auto">>, <<"float32", "auto">>, <<"uint8", "int16">>, <<"float64", "uint8">>, <<"float64", "auto">>, <<"float32", "uint16">> >>
BandSets == <<3, 1, 4, 2, 5>>
Interpretations == << <<>>, <<>>, <<"blue", "green", "red", "undefined">>, <<"green", "gray">>, <<>> >>

NContents == IF Thorough THEN 160 ELSE 32
NRandom == IF Thorough THEN 30 ELSE 9
Content(k) ==
  LET b == 1 + (k % 5) IN
  [kind |-> "ortho", cam |-> Pick(Cams, k)[1], undistort |-> Pick(Cams, k)[2], interp |-> Pick(Interps, k \div 2 + Rnd(k, 5)),
   dem_interp |-> Pick(Interps, k + Rnd(k + 7, 5)), bands |-> BandSets[b], colorinterp |-> Interpretations[b],
   sdtype |-> Pick(Types, k \div 3)[1], dtype |-> Pick(Types, k \div 3)[2],
   res |-> <<10, 13, 7, 25, 9>>[1 + Rnd(k + 3, 5)], aspect |-> <<1, 1, 3, 0, 1>>[1 + Rnd(k + 5, 5)], kappa |-> Rnd(k + 11, 62)]

Base == [per_band |-> FALSE, copts |-> <<>>, driver |-> "gtiff", compress |-> "deflate", ovw |-> FALSE, progress |-> FALSE,
         src_as |-> "path", dem_as |-> "path", src_enc |-> "strip", dem_enc |-> "strip", mask |-> "no"]
Kinds == <<"str", "path", "uri", "rel", "openfile", "dataset", "memory">>
Encs == <<"strip", "tiled", "band", "pixel", "bigendian", "deflate">>
Layouts == << <<>>, [tiled |-> TRUE, blockxsize |-> 16, blockysize |-> 16], [tiled |-> TRUE, blockxsize |-> 64, blockysize |-> 32, compress |-> "lzw"],
              [tiled |-> TRUE, blockxsize |-> 16, blockysize |-> 256, compress |-> "deflate", interleave |-> "band"],
              [tiled |-> FALSE, blockysize |-> 1], [tiled |-> FALSE, blockysize |-> 7, compress |-> "packbits"],
              [tiled |-> TRUE, blockxsize |-> 48, blockysize |-> 80, interleave |-> "pixel"],
              [tiled |-> TRUE, blockxsize |-> 128, blockysize |-> 16, bigtiff |-> "yes", num_threads |-> "2"] >>
CogLayouts == << <<>>, [blocksize |-> 128, compress |-> "lzw", overviews |-> "none"], [blocksize |-> 256, compress |-> "deflate"] >>
Singles == <<
  Base, [Base EXCEPT !.per_band = TRUE], [Base EXCEPT !.copts = Layouts[2]], [Base EXCEPT !.copts = Layouts[5]],
  [Base EXCEPT !.driver = "cog"], [Base EXCEPT !.compress = "lzw"], [Base EXCEPT !.copts = Layouts[3], !.per_band = TRUE] >>
Variant(n, k) ==
  LET q == 1000 * n + 37 * k
      cog == Rnd(q + 1, 4) = 0
  IN [Base EXCEPT !.per_band = Rnd(q + 2, 2) = 0, !.driver = IF cog THEN "cog" ELSE "gtiff",
        !.copts = IF cog THEN Pick(CogLayouts, Rnd(q + 3, 3)) ELSE Pick(Layouts, Rnd(q + 4, 8)),
        !.compress = <<"deflate", "lzw">>[1 + Rnd(q + 5, 2)], !.ovw = Rnd(q + 6, 3) = 0, !.progress = Rnd(q + 7, 4) = 0,
        !.src_as = Pick(Kinds, Rnd(q + 8, 7)), !.dem_as = Pick(Kinds, Rnd(q + 9, 7)),
        !.src_enc = Pick(Encs, Rnd(q + 10, 6)), !.dem_enc = Pick(Encs, Rnd(q + 11, 6))]
GenCases ==
  << [name |-> "undistorted-per-band", strict |-> TRUE, big |-> FALSE,
      content |-> [kind |-> "ortho", cam |-> "fisheye", undistort |-> TRUE, interp |-> "cubic", dem_interp |-> "lanczos", bands |-> 3, colorinterp |-> <<>>,
                   sdtype |-> "float64", dtype |-> "uint8", res |-> 9, aspect |-> 1, kappa |-> 53],
      variants |-> <<Base, [Base EXCEPT !.per_band = TRUE]>>] >> \o
  [n \in 1..NContents |-> [name |-> "content-" \o ToString(n), content |-> Content(n), big |-> FALSE,
     variants |-> Singles \o [k \in 1..NRandom |-> Variant(n, k)]]]
  \* orthos large enough for overviews and several 512 x 512 tiles
  \o [n \in 1..(IF Thorough THEN 12 ELSE 4) |-> [name |-> "large-" \o ToString(n), content |-> [Content(3 * n + 1) EXCEPT !.res = 1 + (n % 2)], big |-> TRUE,
     variants |-> << Base, [Base EXCEPT !.ovw = TRUE], [Base EXCEPT !.ovw = TRUE, !.driver = "cog"], [Base EXCEPT !.per_band = TRUE, !.ovw = TRUE],
                     [Base EXCEPT !.copts = [tiled |-> TRUE, blockxsize |-> 1024, blockysize |-> 1024]], Variant(n, 91), Variant(n, 92) >>]]
=============================================================================
