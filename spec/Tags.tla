-------------------------------- MODULE Tags --------------------------------
(***************************************************************************)
(* Ground control points (GCPs) and RPC models that are stored with images *)
(* (tags, and sidecar files), or in files that name images.                *)
(*                                                                         *)
(* A store is a sequence of images, each with a name and a sequence of     *)
(* GCPs [ji, lla, xy, id, info], or an RPC model, a record of sequences of *)
(* numbers.  Reading a store gives one entry for each image, under its     *)
(* name; the GCPs in the order they are stored in, at their WGS84          *)
(* positions.                                                              *)
(***************************************************************************)
EXTENDS Place

Fields == {"line_off", "samp_off", "lat_off", "long_off", "height_off", "line_scale", "samp_scale", "lat_scale", "long_scale", "height_scale",
           "line_num_coeff", "line_den_coeff", "samp_num_coeff", "samp_den_coeff"}
\* GeoTIFF tags hold no texts
KeepsTexts(store) == store # "tiff"
Spoilt(case) == case.spoil # "none"
ErrorFor(spoil) == CASE spoil = "missing" -> "FileNotFoundError" [] spoil = "corrupt" -> "RuntimeError" [] OTHER -> "ParamError"
\* image tags do not tell absent from empty texts, files do
Blank(t) == IF t = "none" THEN "" ELSE t
SameText(store, a, b) == IF store = "geojson" THEN a = b ELSE Blank(a) = Blank(b)

NearNumber(a, b) == RNear(a, b, RMax("1e-14", RAbs(b) ** "2e-14"))
SameNumbers(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : NearNumber(a[i], b[i])
\* positions within a tenth of a millimetre
SamePlace(p, q) == /\ RNear(p[1], q[1], "1e-9") /\ RNear(Wrap(p[2] -- q[2]), 0, "1e-8") /\ RNear(p[3], q[3], "1e-6")
=============================================================================
