------------------------------- MODULE C07Gen -------------------------------
EXTENDS Gen, Profile

Base == [kind |-> "ortho", cam |-> "pinhole", bands |-> 3, sdtype |-> "uint8", dtype |-> "auto", compress |-> "auto", mask |-> "auto", driver |-> "gtiff",
         copts |-> <<>>, ovw |-> TRUE, per_band |-> FALSE, interp |-> "nearest", enums |-> FALSE, res |-> 20]
Bad == {"int32", "uint32", "int8", "complex64", "int64"}

(* the cross product of the output settings *)
Table ==
  {[Base EXCEPT !.kind = kd, !.dtype = dt, !.compress = cm, !.mask = mk, !.driver = dr, !.bands = b, !.enums = (b = 1)] :
     kd \in {"ortho", "pan"}, dt \in DTypes, cm \in Compressions \cup {"auto"}, mk \in {"auto", "yes", "no"}, dr \in Drivers, b \in {1, 3, 4}}
  \cup {[Base EXCEPT !.kind = kd, !.sdtype = sd, !.compress = cm, !.driver = dr] :
     kd \in {"ortho", "pan"}, sd \in DTypes, cm \in Compressions \cup {"auto"}, dr \in Drivers}
  \cup {[Base EXCEPT !.kind = kd, !.dtype = dt, !.compress = cm] : kd \in {"ortho", "pan"}, dt \in Bad, cm \in {"auto", "jpeg", "lzw"}}
TableSeq == SetToSeq({c \in Table : ~Open(c)})

Options == <<
  [compress |-> "lzw"], [compress |-> "deflate", tiled |-> TRUE, blockxsize |-> 64, blockysize |-> 32], [tiled |-> TRUE], [interleave |-> "band"],
  [COMPRESS |-> "DEFLATE"], [compress |-> "packbits", blockysize |-> 5], [compress |-> "jpeg"],
  [COMPRESS |-> "JPEG", PHOTOMETRIC |-> "YCBCR", tiled |-> TRUE, blockxsize |-> 256, blockysize |-> 128], [compress |-> "JPEG", jpeg_quality |-> 60] >>
CogOptions == << [blocksize |-> 256, compress |-> "lzw"], [compress |-> "DEFLATE", overviews |-> "none"], [blocksize |-> 128, compress |-> "jpeg", quality |-> 80] >>
WithOptions ==
  {[Base EXCEPT !.kind = kd, !.copts = Options[k], !.compress = cm, !.mask = mk, !.dtype = dt, !.per_band = (kd = "ortho")] :
     kd \in {"ortho", "pan"}, k \in DOMAIN Options, cm \in {"auto", "deflate", "jpeg"}, mk \in {"auto", "yes", "no"}, dt \in {"uint8", "int16"}}
  \cup {[Base EXCEPT !.driver = "cog", !.copts = CogOptions[k], !.compress = cm, !.mask = mk] :
     k \in DOMAIN CogOptions, cm \in {"auto", "lzw"}, mk \in {"auto", "yes", "no"}}
\* JPEG is an 8 bit format
OptionSeq == SetToSeq({c \in WithOptions : IsJpeg(c) => DtypeOf(c) = "uint8"})

(* overviews *)
Dims == <<255, 256, 300, 511, 512, 513, 700, 1023, 1024, 1025>> \o (IF Thorough THEN <<1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097>> ELSE <<2047, 2048>>)
OvwSeq ==
  [k \in 1..(2 * Len(Dims)) |->
     LET m == Dims[(k + 1) \div 2]  o == m + ((k * 97) % 400) IN
     [name |-> "overviews", kind |-> "pan", bands |-> 1, sdtype |-> "uint8", dtype |-> "auto", compress |-> "deflate", mask |-> IF k % 3 = 0 THEN "yes" ELSE "no",
      driver |-> IF k % 4 = 1 THEN "cog" ELSE "gtiff", copts |-> <<>>, ovw |-> k % 5 # 0, per_band |-> FALSE, interp |-> "nearest", enums |-> FALSE, res |-> 20,
      hole |-> FALSE, scale |-> 2 + (k % 3), size |-> IF k % 2 = 0 THEN <<m, o>> ELSE <<o, m>>]]
  \o [k \in 1..6 |-> [size |-> <<700, 600>>] @@ [Base EXCEPT !.bands = 1 + (k % 3), !.res = 2 - (k % 2), !.driver = IF k = 3 THEN "cog" ELSE "gtiff", !.ovw = k # 4, !.per_band = k > 4] @@ [name |-> "overviews"]]
(* numbers of levels, for images too large to make *)
LevelSeq == [k \in 1..60 |-> [name |-> "levels", kind |-> "levels", size |-> LET m == 2 ^ (7 + (k % 13)) + (Rnd(k, 3) - 1) IN IF k % 2 = 0 THEN <<m, m + k>> ELSE <<m + 3 * k, m>>]]

(* conversion to integer data types *)
ConvSeq == SetToSeq(
  {[name |-> "conversion", kind |-> kd, cam |-> "pinhole", bands |-> 3, sdtype |-> sd, dtype |-> dt, compress |-> "deflate", mask |-> "yes", driver |-> "gtiff", copts |-> <<>>,
    ovw |-> FALSE, per_band |-> pb, interp |-> "nearest", enums |-> FALSE, res |-> 20, values |-> "wild", scale |-> 2, hole |-> FALSE] :
     kd \in {"ortho", "pan"}, sd \in DTypes, dt \in DTypes, pb \in BOOLEAN} )

Named(s, n) == [k \in DOMAIN s |-> [name |-> n] @@ s[k]]
GenCases == Named(TableSeq, "table") \o Named(OptionSeq, "options") \o OvwSeq \o LevelSeq \o ConvSeq
=============================================================================
