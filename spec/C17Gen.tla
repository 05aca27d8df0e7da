------------------------------- MODULE C17Gen -------------------------------
EXTENDS PanCases

Geos == << Geo(12, 10, 6, 5, 1, 1, 2, 2, 0, 0),        \* aligned, ratio 2
           Geo(24, 20, 6, 5, 1, 1, 4, 4, 0, 0),        \* ratio 4
           Geo(30, 27, 10, 9, 2, 2, 6, 6, 0, 0),       \* ratio 3
           Geo(20, 16, 9, 9, 1, 1, 4, 4, -8, -12),     \* MS beyond pan, aligned
           Geo(26, 26, 4, 5, 1, 1, 4, 4, 3, 5),        \* pan beyond MS
           Geo(21, 15, 7, 6, 2, 2, 7, 7, -5, 3),       \* ratio 3.5, misaligned
           Geo(17, 19, 9, 8, 3, 2, 5, 5, 4, -3),       \* pixels that are not square
           Geo(9, 8, 9, 8, 1, 1, 1, 1, 0, 0),          \* same resolution
           Geo(14, 14, 20, 20, 2, 2, 3, 3, -11, -20) >>
Weights == << <<>>, <<"1", "1", "1">>, <<"0.2", "0.3", "0.5">>, <<"5", "1", "0">>, <<"0", "0", "7.5">>, <<>>, <<"0.00001", "1", "0.3">> >>
BandSets == << <<>>, <<1, 2, 3>>, <<3, 1, 2>>, <<2>>, <<4, 2>>, <<3, 4>>, <<1>>, <<4, 3, 2, 1>>, <<2, 3>> >>
Hows == <<"mixed", "mixed", "random", "contrast", "mixed", "sum", "const", "mixed", "anti">>
Types == <<"float32", "float64", "uint16", "int16", "uint8", "float32">>
Masks == <<"nodata", "mask", "alpha", "nan", "nodata">>
Interps == <<"nearest", "nearest", "nearest", "bilinear", "cubic", "nearest", "average", "lanczos">>
MaskFor(m, t) == IF m = "nan" /\ t \notin {"float32", "float64"} THEN "nodata" ELSE m
Small(h) ==
  LET g == Pick(Geos, h)
      nb == 3 + Rnd(h + 1, 2)
      bs0 == Pick(BandSets, Rnd(h + 2, 100))
      bs == IF \A i \in DOMAIN bs0 : bs0[i] <= nb THEN bs0 ELSE <<2, 1>>
      n == IF bs = <<>> THEN nb ELSE Len(bs)
      how == Pick(Hows, Rnd(h + 3, 100))
      sum == [b \in 1..n |-> ToString(nb + 1 - (IF bs = <<>> THEN b ELSE bs[b]))]
      \* the pan is the weighted sum of all bands
      w == IF how = "sum" THEN (IF n = nb THEN sum ELSE <<>>) ELSE LET x == Pick(Weights, Rnd(h + 4, 100)) IN IF x = <<>> THEN x ELSE [b \in 1..n |-> x[1 + ((b - 1) % 3)]]
      ww == IF \A b \in DOMAIN w : w[b] = "0" THEN <<>> ELSE w
      mstype == Pick(Types, Rnd(h + 5, 100))  pantype == IF how \in {"sum"} THEN "float32" ELSE Pick(<<"float32", "uint16", "int16", "float64">>, Rnd(h + 6, 100))
      anyhole == Pick(<<"none", "none", "corner", "stripe", "scatter", "half">>, Rnd(h + 7, 100))  mshole == Pick(<<"none", "none", "corner", "stripe", "scatter", "half">>, Rnd(h + 8, 100))
      same == Rnd(h + 9, 7) = 0
      \* rounding of coordinates between CRSs can let an average see one more row of pan pixels: no difference unless the others are invalid
      far == ~same /\ g.px # g.mx /\ Rnd(h + 10, 3) = 2
      hole == IF far THEN "none" ELSE anyhole
      \* how GDAL resamples near invalid pixels depends on the tile that is read
      interp == IF how = "sum" THEN "nearest" ELSE Pick(Interps, Rnd(h + 14, 100))
  IN [Base(h, "small-" \o ToString(h), IF same THEN Same(g.pw, g.ph, 1 + (g.pw \div 3), 1 + (g.ph \div 2)) ELSE g, nb) EXCEPT
        !.georef = IF same THEN Pick(<<"noms", "nopan", "none">>, h) ELSE IF far THEN "crs" ELSE "both",
        !.how = IF same /\ how = "sum" THEN "mixed" ELSE how, !.bands = bs, !.weights = IF same /\ how = "sum" THEN <<>> ELSE ww,
        !.mstype = mstype, !.pantype = pantype, !.outtype = Pick(<<"none", "none", "float32", "int16", "uint8">>, Rnd(h + 11, 100)),
        !.hole = hole, !.mshole = mshole, !.panmask = IF hole = "none" THEN "none" ELSE MaskFor(Pick(Masks, Rnd(h + 12, 100)), pantype),
        !.msmask = IF mshole = "none" THEN "none" ELSE MaskFor(Pick(Masks, Rnd(h + 13, 100)), mstype),
        !.interp = interp, !.panbands = 1 + Rnd(h + 15, 3), !.panindex = 1 + Rnd(h + 15, 3),
        !.options = IF interp = "nearest" THEN Pick(<<"none", "none", "tiles16">>, Rnd(h + 16, 3)) ELSE "none", !.scale = Pick(<<"0.5", "0.1", "2", "0.3", "1">>, Rnd(h + 17, 5)),
        !.files = Pick(<<"path", "path", "dataset", "openfile">>, Rnd(h + 18, 4)), !.writemask = Pick(<<"none", "true", "false">>, Rnd(h + 19, 3)), !.before = Rnd(h + 20, 3) = 0]
Smalls == [h \in 1..(IF Thorough THEN 3000 ELSE 200) |-> Small(h + 5000 * Seed)]

\* more than one tile of statistics
Long(h, g, how, mshole, hole) ==
  [Base(h, "long-" \o ToString(h), g, 2) EXCEPT !.how = how, !.mshole = mshole, !.hole = hole, !.msmask = IF mshole = "none" THEN "none" ELSE "mask", !.panmask = IF hole = "none" THEN "none" ELSE "nodata"]
Longs == << Long(1, Geo(2100, 6, 1050, 3, 1, 1, 2, 2, 0, 0), "mixed", "none", "none"),
            Long(2, Geo(6, 2100, 3, 1050, 1, 1, 2, 2, 0, 0), "random", "scatter", "none"),
            Long(3, Geo(2400, 3, 1200, 2, 1, 1, 2, 2, 0, 0), "mixed", "none", "left"),     \* a tile without valid pixels
            Long(4, Geo(2, 2080, 2, 1040, 1, 1, 1, 2, 0, 0), "mixed", "half", "none"),
            Long(5, Geo(2060, 2, 1030, 1, 2, 1, 4, 2, 0, 0), "mixed", "stripe", "none") >>
          \o (IF Thorough THEN << Long(6, Geo(3100, 4, 3100, 2, 1, 1, 1, 2, 0, 0), "mixed", "scatter", "none"),
                                  Long(7, Geo(4, 2600, 2, 2600, 1, 1, 2, 1, 0, 0), "contrast", "none", "top") >> ELSE <<>>)
\* values that do not vary
Flats == << [Base(1, "flat-ms", Geos[1], 2) EXCEPT !.flat = "yes", !.weights = <<"1", "1">>, !.how = "random"],
            [Base(2, "flat-pan", Geos[1], 2) EXCEPT !.how = "const", !.weights = <<"1", "1">>],
            [Base(3, "flat-both", Geos[2], 2) EXCEPT !.flat = "yes", !.how = "sum", !.weights = <<"2", "1">>],
            [Base(4, "one-ms-pixel", Geo(4, 4, 1, 1, 1, 1, 4, 4, 0, 0), 2) EXCEPT !.how = "mixed", !.weights = <<"2", "1">>],
            [Base(5, "faint-pan", Geos[1], 3) EXCEPT !.how = "faint"],
            [Base(6, "faint-pan-weights", Geos[2], 2) EXCEPT !.how = "faint", !.weights = <<"2", "1">>, !.pantype = "uint16"],
            \* the simulated pan varies much less than the bands
            [Base(7, "faint-band", Geos[1], 2) EXCEPT !.flat = "first", !.weights = <<"1", "0">>, !.how = "random", !.mstype = "float64"],
            [Base(8, "faint-band-1", Geos[3], 3) EXCEPT !.flat = "first", !.weights = <<"1", "0", "0">>, !.how = "random", !.mstype = "float64"] >>
GenCases == [k \in 1..Len(Smalls) |-> Fill(Smalls[k])] \o [k \in 1..Len(Longs) |-> Fill(Longs[k])] \o [k \in 1..Len(Flats) |-> Fill(Flats[k])]
=============================================================================
