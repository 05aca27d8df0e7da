------------------------------- MODULE C18Gen -------------------------------
EXTENDS PanCases

\* relative placements: aligned or not, MS within pan, pan within MS, partial overlaps on every side, single rows and columns
Sizes == << <<1, 1, 4, 4>>, <<2, 2, 7, 7>>, <<3, 2, 5, 5>>, <<1, 1, 1, 1>>, <<2, 3, 6, 9>>, <<4, 4, 7, 5>>, <<1, 1, 8, 3>> >>
Placed(h) ==
  LET s == Pick(Sizes, h)
      pw == 1 + Rnd(h + 20, 24)  ph == 1 + Rnd(h + 21, 24)  mw == 1 + Rnd(h + 22, 9)  mh == 1 + Rnd(h + 23, 9)
      \* any offset with an overlap, or aligned ones
      span(pn, p, mn, m, k) == LET lo == 1 - (mn * m)  hi == (pn * p) - 1 IN
        IF Rnd(k, 3) = 0 THEN (IF Rnd(k + 1, 2) = 0 THEN 0 ELSE (p * (pn \div 2))) ELSE lo + Rnd(k + 2, (hi - lo) + 1)
  IN Geo(pw, ph, mw, mh, s[1], s[2], s[3], s[4], span(pw, s[1], mw, s[3], h + 24), span(ph, s[2], mh, s[4], h + 27))
Types == <<"float32", "float64", "uint16", "int16", "uint8">>
Masks == <<"nodata", "mask", "alpha", "nan", "nodata">>
MaskFor(m, t) == IF m = "nan" /\ t \notin {"float32", "float64"} THEN "nodata" ELSE m
Orders == << <<>>, <<1>>, <<2, 1>>, <<3, 2, 1>>, <<1, 3>>, <<2, 3, 1, 4>>, <<4>>, <<2, 2>>, <<3, 1, 3>> >>
One(h) ==
  LET same == Rnd(h + 1, 6) = 0
      g0 == Placed(h)
      g == IF same THEN Same(4 + Rnd(h + 40, 20), 3 + Rnd(h + 41, 20), 1 + Rnd(h + 42, 4), 1 + Rnd(h + 43, 3)) ELSE g0
      nb == 2 + Rnd(h + 2, 3)
      bs0 == Pick(Orders, Rnd(h + 3, 100))
      bs == IF \A i \in DOMAIN bs0 : bs0[i] <= nb THEN bs0 ELSE <<nb>>
      n == IF bs = <<>> THEN nb ELSE Len(bs)
      mstype == Pick(Types, Rnd(h + 4, 100))  pantype == Pick(Types, Rnd(h + 5, 100))
      hole == Pick(<<"none", "none", "corner", "stripe", "scatter", "half", "all">>, Rnd(h + 6, 100))  mshole == Pick(<<"none", "none", "corner", "stripe", "scatter", "half">>, Rnd(h + 7, 100))
      driver == Pick(<<"gtiff", "gtiff", "cog">>, Rnd(h + 8, 3))
      outtype == Pick(<<"none", "none", "float32", "int16", "uint8">>, Rnd(h + 11, 100))
      \* how GDAL resamples near invalid pixels depends on the tile that is read
      interp == Pick(<<"nearest", "nearest", "nearest", "bilinear", "cubic", "average", "lanczos", "bilinear">>, Rnd(h + 14, 8))
  IN [Base(h, "place-" \o ToString(h), g, nb) EXCEPT
        !.georef = IF same THEN Pick(<<"noms", "nopan", "none">>, h) ELSE Pick(<<"both", "both", "crs">>, Rnd(h + 10, 3)),
        !.bands = bs, !.weights = [b \in 1..n |-> ToString(1 + Rnd(h + b, 4))], !.mstype = mstype, !.pantype = pantype, !.outtype = outtype,
        !.hole = hole, !.mshole = mshole, !.panmask = IF hole = "none" THEN "none" ELSE MaskFor(Pick(Masks, Rnd(h + 12, 100)), pantype),
        !.msmask = IF mshole = "none" THEN Pick(<<"none", "alpha">>, Rnd(h + 13, 2)) ELSE MaskFor(Pick(Masks, Rnd(h + 13, 100)), mstype),
        !.interp = interp, !.panbands = 1 + Rnd(h + 15, 3), !.panindex = 1 + Rnd(h + 15, 3),
        !.options = IF interp = "nearest" THEN Pick(<<"none", "none", "tiles16">>, Rnd(h + 16, 3)) ELSE "none", !.scale = Pick(<<"0.5", "0.1", "2", "0.3", "1", "0.7", "0.01", "33.333">>, Rnd(h + 17, 8)), !.driver = driver,
        !.files = Pick(<<"path", "path", "dataset", "openfile">>, Rnd(h + 18, 4)), !.writemask = Pick(<<"none", "true", "false", "none">>, Rnd(h + 19, 4)),
        !.compress = IF (IF outtype = "none" THEN mstype ELSE outtype) = "uint8" THEN "deflate" ELSE Pick(<<"deflate", "none", "lzw">>, Rnd(h + 9, 3))]
Ones == [h \in 1..(IF Thorough THEN 4000 ELSE 500) |-> One(h + 7000 * Seed)]

G1 == Geo(12, 10, 6, 5, 1, 1, 2, 2, 0, 0)
Rej(k, what) == [Base(k, "reject-" \o what, G1, 3) EXCEPT !.reject = what]
Rejects == <<
  [Rej(1, "ms-zero") EXCEPT !.bands = <<1, 0>>], [Rej(2, "ms-high") EXCEPT !.bands = <<1, 4>>], [Rej(3, "ms-negative") EXCEPT !.bands = <<-1>>],
  [Rej(4, "pan-zero") EXCEPT !.panindex = 0], [Rej(5, "pan-high") EXCEPT !.panindex = 2], [Rej(6, "pan-negative") EXCEPT !.panindex = -1],
  [Rej(7, "weights-few") EXCEPT !.weights = <<"1", "1">>], [Rej(8, "weights-many") EXCEPT !.weights = <<"1", "1", "1">>, !.bands = <<2, 1>>],
  [Rej(9, "weights-negative") EXCEPT !.weights = <<"1", "-0.5", "1">>], [Rej(10, "weights-zero") EXCEPT !.weights = <<"0", "0", "0">>],
  [Rej(11, "weights-nan") EXCEPT !.weights = <<"1", "nan", "1">>], [Rej(12, "weights-inf") EXCEPT !.weights = <<"1", "inf", "1">>],
  [Rej(13, "coarse-x") EXCEPT !.g = Geo(6, 10, 12, 5, 2, 1, 1, 2, 0, 0)], [Rej(14, "coarse-y") EXCEPT !.g = Geo(12, 5, 6, 10, 1, 2, 2, 1, 0, 0)],
  [Rej(15, "coarse-noms") EXCEPT !.g = Same(5, 5, 6, 5), !.georef = "noms"], [Rej(16, "coarse-none") EXCEPT !.g = Same(5, 4, 5, 5), !.georef = "none"],
  [Rej(17, "apart-x") EXCEPT !.g = Geo(12, 10, 6, 5, 1, 1, 2, 2, 20, 0)], [Rej(18, "apart-y") EXCEPT !.g = Geo(12, 10, 6, 5, 1, 1, 2, 2, 0, -30)],
  [Rej(19, "touch-x") EXCEPT !.g = Geo(12, 10, 6, 5, 1, 1, 2, 2, 12, 0)], [Rej(20, "touch-y") EXCEPT !.g = Geo(12, 10, 6, 5, 1, 1, 2, 2, 0, -10), !.scale = "0.1"],
  [Rej(21, "touch-crs") EXCEPT !.g = Geo(12, 10, 6, 5, 1, 1, 2, 2, -12, 0), !.georef = "crs", !.scale = "0.3"], [Rej(22, "apart-crs") EXCEPT !.g = Geo(12, 10, 6, 5, 1, 1, 2, 2, 30, 30), !.georef = "crs"],
  [Rej(23, "coarse-crs") EXCEPT !.g = Geo(6, 5, 12, 10, 2, 2, 1, 1, 0, 0), !.georef = "crs"], [Rej(24, "ms-high-alpha") EXCEPT !.bands = <<5>>, !.msmask = "alpha"] >>
\* the specification has to agree that these are to be rejected
GenCases == [k \in 1..Len(Ones) |-> Fill(Ones[k])] \o [k \in 1..Len(Rejects) |-> Fill(Rejects[k])]
=============================================================================
