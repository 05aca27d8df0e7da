------------------------------ MODULE PanCases ------------------------------
(* Cases for pan-sharpening: geometries, values, validity patterns and configurations. *)
EXTENDS Gen, PanSharp

Geo(pw, ph, mw, mh, px, py, mx, my, ox, oy) == [pw |-> pw, ph |-> ph, mw |-> mw, mh |-> mh, px |-> px, py |-> py, mx |-> mx, my |-> my, ox |-> ox, oy |-> oy]
\* images without georeferencing have one and the same extent
Same(pw, ph, mw, mh) == Geo(pw, ph, mw, mh, mw, mh, pw, ph, 0, 0)

Noise(k, i, r, c, n) == Rnd((k * 131) + (i * 4001) + (r * 211) + (c * 17) + ((r * c) % 89), n)
\* patterns of invalid pixels
Holes == <<"none", "corner", "stripe", "scatter", "half", "all">>
Hole(kind, k, r, c, h, w) ==
  CASE kind = "none" -> FALSE
    [] kind = "corner" -> r + c < 3
    [] kind = "stripe" -> c % 5 = 2
    [] kind = "scatter" -> Noise(k, 77, r, c, 9) = 0
    [] kind = "half" -> 2 * r >= h
    [] kind = "left" -> c < w - 5
    [] kind = "top" -> r < h - 5
    [] kind = "all" -> TRUE
\* MS values; the validity pattern is shifted from band to band unless the mask is for all bands
MsValues(k, g, nb, kind, shift, flat) ==
  [b \in 1..nb |-> [r \in 1..g.mh |-> [c \in 1..g.mw |->
     IF Hole(kind, k + (IF shift THEN b ELSE 0), r - 1, c - 1 + (IF shift THEN b ELSE 0), g.mh, g.mw) THEN Invalid
     ELSE IF flat = "yes" THEN 90 + 10 * b ELSE IF flat = "first" THEN (IF b = 1 THEN 100 + Noise(k, b, r, c, 2) ELSE 200 * Noise(k, b, r, c, 70)) ELSE 60 + Noise(k, b, r, c, 60 + 10 * b) + ((r + c) % 7) + (IF g.mw > 500 THEN c \div 8 ELSE 0) + (IF g.mh > 500 THEN r \div 8 ELSE 0)]]]
\* pan values: a weighted sum of the MS values below, and detail
PanValues(k, g, ms, how, kind) ==
  [r \in 1..g.ph |-> [c \in 1..g.pw |->
     LET i == NearestAt(r - 1, g.py, g.my, g.oy) + 1  j == NearestAt(c - 1, g.px, g.mx, g.ox) + 1
         in == i >= 1 /\ i <= g.mh /\ j >= 1 /\ j <= g.mw
         v(b) == IF in THEN (IF ms[b][i][j] = Invalid THEN 100 ELSE ms[b][i][j]) ELSE 100
         nb == Len(ms)
         mix == FoldSet(LAMBDA b, s : s + ((nb + 1 - b) * v(b)), 0, 1..nb)
         top == (nb * (nb + 1)) \div 2
     IN IF Hole(kind, k + 50, r - 1, c - 1, g.ph, g.pw) THEN Invalid
        ELSE CASE how = "mixed" -> (mix \div top) + Noise(k, 9, r, c, 25)
               [] how = "sum" -> mix
               [] how = "random" -> 40 + Noise(k, 9, r, c, 150)
               [] how = "anti" -> 260 - (mix \div top) + Noise(k, 9, r, c, 5)
               [] how = "contrast" -> (3 * v(1)) - v(nb) + Noise(k, 9, r, c, 9)
               [] how = "const" -> 120
               [] how = "faint" -> 24000 + Noise(k, 9, r, c, 4) + (v(1) % 3)]]   \* little contrast

Base(k, name, g, nb) ==
  [name |-> name, g |-> g, nb |-> nb, hole |-> "none", mshole |-> "none", panmask |-> "none", msmask |-> "none", how |-> "mixed", panindex |-> 1, panbands |-> 1,
   bands |-> <<>>, weights |-> <<>>, georef |-> "both", scale |-> "0.5", origin |-> <<"500000", "6250000">>, pantype |-> "float32", mstype |-> "float32", outtype |-> "none",
   interp |-> "nearest", driver |-> "gtiff", options |-> "none", writemask |-> "none", compress |-> "deflate", files |-> "path", flat |-> "no", before |-> FALSE, k |-> k, reject |-> "none", spaced |-> "none"]
\* adds the values
Fill(c) ==
  LET ms == TLCEval(MsValues(c.k, c.g, c.nb, c.mshole, c.msmask \in {"nodata", "nan"}, c.flat))
  IN c @@ [ms |-> ms, pan |-> PanValues(c.k, c.g, ms, c.how, c.hole)]
=============================================================================
