------------------------------ MODULE Profile -------------------------------
(***************************************************************************)
(* The documented configuration of output images: what a file looks like,  *)
(* given the output options of a call.                                     *)
(*                                                                         *)
(* An option record has the fields: dtype ("auto" for that of the source), *)
(* sdtype (source data type), compress ("auto", ...), mask ("auto", "yes", *)
(* "no"), driver, copts (creation options; <<>> for none), bands, ovw.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

DTypes == {"uint8", "uint16", "int16", "float32", "float64"}
Compressions == {"jpeg", "deflate", "lzw"}
Drivers == {"gtiff", "cog"}

NodataOf(dt) == CASE dt \in {"uint8", "uint16"} -> 0 [] dt = "int16" -> -32768 [] OTHER -> "nan"
RangeOf(dt) == CASE dt = "uint8" -> <<0, 255>> [] dt = "uint16" -> <<0, 65535>> [] dt = "int16" -> <<-32768, 32767>>

HasOpts(c) == c.copts # <<>>
DtypeOf(c) == IF c.dtype = "auto" THEN c.sdtype ELSE c.dtype

(* the compression, and "" where the driver chooses it *)
CompressOf(c) ==
  IF HasOpts(c) THEN IF "compress" \in DOMAIN c.copts THEN c.copts.compress
                     ELSE IF "COMPRESS" \in DOMAIN c.copts THEN c.copts.COMPRESS
                     ELSE IF c.driver = "gtiff" THEN "none" ELSE ""
  ELSE IF c.compress = "auto" THEN IF DtypeOf(c) = "uint8" THEN "jpeg" ELSE "deflate"
  ELSE c.compress
IsJpeg(c) == CompressOf(c) \in {"jpeg", "JPEG"}

(* support of 12 bit JPEG depends on the GDAL build *)
Open(c) == IsJpeg(c) /\ DtypeOf(c) = "uint16"
Rejected(c) ==
  \/ DtypeOf(c) \notin DTypes
  \/ ~HasOpts(c) /\ IsJpeg(c) /\ DtypeOf(c) \notin {"uint8", "uint16"}

Masked(c) == c.mask = "yes" \/ (c.mask = "auto" /\ IsJpeg(c))
Nodata(c) == IF Masked(c) THEN <<>> ELSE <<NodataOf(DtypeOf(c))>>

(* names that GDAL gives the compressions *)
CompressNames(c) ==
  LET k == CompressOf(c) IN
  CASE k \in {"deflate", "DEFLATE"} -> {"DEFLATE"}
    [] k \in {"lzw", "LZW"} -> {"LZW"}
    [] k = "packbits" -> {"PACKBITS"}
    [] k = "none" -> {"NONE"}
    [] k \in {"jpeg", "JPEG"} ->
         IF HasOpts(c) THEN IF "PHOTOMETRIC" \in DOMAIN c.copts THEN {"YCbCr JPEG"} ELSE IF c.driver = "gtiff" THEN {"JPEG"} ELSE {"JPEG", "YCbCr JPEG"}
         ELSE IF c.driver = "gtiff" THEN IF c.bands = 3 THEN {"YCbCr JPEG"} ELSE {"JPEG"}
         ELSE {"JPEG", "YCbCr JPEG"}

(* block shapes (rows, columns); <<>>: left to the driver *)
BlocksOf(c, size) ==
  IF ~HasOpts(c) THEN <<512, 512>>
  ELSE IF c.driver = "cog" THEN IF "blocksize" \in DOMAIN c.copts THEN <<c.copts.blocksize, c.copts.blocksize>> ELSE <<>>
  ELSE IF "tiled" \in DOMAIN c.copts
       THEN IF "blockxsize" \in DOMAIN c.copts THEN <<c.copts.blockysize, c.copts.blockxsize>> ELSE <<256, 256>>
  ELSE IF "blockysize" \in DOMAIN c.copts THEN <<c.copts.blockysize, size[1]>>
  ELSE <<>>
StripsOf(c) == HasOpts(c) /\ c.driver = "gtiff" /\ "tiled" \notin DOMAIN c.copts /\ "TILED" \notin DOMAIN c.copts

(* overviews: powers of 2, at most 8 of them, the smallest with at least 256 rows and columns *)
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
Lesser(a, b) == IF a < b THEN a ELSE b
Levels(size) ==
  LET m == Lesser(size[1], size[2])
      n == Lesser(8, IF Log2(m) > 8 THEN Log2(m) - 8 ELSE 0)
  IN [k \in 1..n |-> 2 ^ k]
(* a COG only copies overviews when it is told to *)
OvwOpen(c) == c.driver = "cog" /\ HasOpts(c)
OvwOf(c, size) == IF c.ovw THEN Levels(size) ELSE <<>>

OvwOptions == [dtype |-> "auto", sdtype |-> "uint8", compress |-> "auto", mask |-> "auto", driver |-> "gtiff", copts |-> <<>>, bands |-> 3, ovw |-> FALSE]

(* the decision table is total and consistent *)
Consistent ==
  \A dt \in DTypes \cup {"auto", "int32"}, sd \in DTypes, cm \in Compressions \cup {"auto"}, mk \in {"auto", "yes", "no"}, dr \in Drivers, b \in {1, 3} :
    LET c == [dtype |-> dt, sdtype |-> sd, compress |-> cm, mask |-> mk, driver |-> dr, copts |-> <<>>, bands |-> b, ovw |-> TRUE] IN
    /\ Rejected(c) \/ (CompressNames(c) # {} /\ (Masked(c) <=> Nodata(c) = <<>>))
    /\ (mk = "auto" /\ ~Rejected(c)) => (Masked(c) <=> IsJpeg(c))
LevelsSmall == \A w \in 1..3000 : \A k \in DOMAIN Levels(<<w, 3000>>) : w \div Levels(<<w, 3000>>)[k] >= 256
=============================================================================
