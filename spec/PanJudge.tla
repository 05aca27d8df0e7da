------------------------------ MODULE PanJudge ------------------------------
(* What a recorded pan-sharpening run has to satisfy. *)
EXTENDS Judge, PanSharp

Bands(c) == IF c.bands = <<>> THEN Indices(c.nb) ELSE c.bands
\* the MS pixel under a pan pixel of the output, for nearest neighbour resampling
Where1(n, p, mn, m, o) == TLCEval([i \in 0..(n[2] - 1) |-> Nearest1(n[1] + i, p, mn, m, o)])
Where(c) == LET g == c.g IN [x |-> Where1(PanCols(g), g.px, g.mw, g.mx, g.ox), y |-> Where1(PanRows(g), g.py, g.mh, g.my, g.oy)]
MsAt(c, b, i, j) == LET g == c.g IN c.ms[b][NearestAt(PanRows(g)[1] + i, g.py, g.my, g.oy) + 1][NearestAt(PanCols(g)[1] + j, g.px, g.mx, g.ox) + 1]
PanAt(c, i, j) == c.pan[PanRows(c.g)[1] + i + 1][PanCols(c.g)[1] + j + 1]
\* interpolation other than nearest is the environment's: its results come with the observation
Resampled(c) == c.interp # "nearest"
Undecided(c, wh, i, j) == (~Resampled(c) \/ c.mshole # "none") /\ (wh.y[i] = "tie" \/ wh.x[j] = "tie")
MsValid(c, o, wh, i, j) ==
  IF Resampled(c) THEN \A b \in DOMAIN Bands(c) : o.env[b][i + 1][j + 1] # "none"
  ELSE wh.y[i] = "at" /\ wh.x[j] = "at" /\ \A b \in DOMAIN Bands(c) : MsAt(c, Bands(c)[b], i, j) # Invalid
Valid(c, o, wh, i, j) == PanAt(c, i, j) # Invalid /\ MsValid(c, o, wh, i, j)
MsValue(c, o, b, i, j) == IF Resampled(c) THEN R(o.env[b][i + 1][j + 1]) ELSE R(MsAt(c, Bands(c)[b], i, j))

Cells(c) == (0..(PanRows(c.g)[2] - 1)) \X (0..(PanCols(c.g)[2] - 1))
Shape(c) == <<Len(Bands(c)), PanRows(c.g)[2], PanCols(c.g)[2]>>

\* ------------------------------------------------------------------- values
TypeRange(t) == CASE t = "uint8" -> <<0, 255>> [] t = "uint16" -> <<0, 65535>> [] t = "int16" -> <<-32768, 32767>> [] OTHER -> <<"-1e30", "1e30">>
IsInt(t) == t \in {"uint8", "uint16", "int16"}
OutType(c) == IF c.outtype = "none" THEN c.mstype ELSE c.outtype
Agrees(t, x, v) == LET y == RMin(RMax(x, TypeRange(t)[1]), TypeRange(t)[2]) IN RNear(v, y, IF IsInt(t) THEN "0.50001" ELSE (RAbs(y) ++ 1) ** "0.000001")
TheSamples(c, o) == TLCEval(Samples(c.g, c.pan, c.ms, Bands(c), IF Aligned(c.g) THEN <<>> ELSE o.averages))
\* there are enough pixels to estimate weights
Enough(c, o) == c.weights # <<>> \/ TheSamples(c, o).n > Len(Bands(c)) + 1
TheModel(c, o) == LET nb == Len(Bands(c)) IN Model(Stats(TheSamples(c, o), nb), nb, c.weights)
ValuesFailing(c, o) ==
  LET m == TLCEval(TheModel(c, o))
      wh == TLCEval(Where(c))
      t == OutType(c)
      nb == Len(Bands(c))
      decided == {e \in Cells(c) : ~Undecided(c, wh, e[1], e[2]) /\ Valid(c, o, wh, e[1], e[2]) /\ o.valid[e[1] + 1][e[2] + 1] = 1}
      fails(e) == LET ms == TLCEval([b \in 1..nb |-> MsValue(c, o, b, e[1], e[2])])
                      x == Sharpened(m, R(PanAt(c, e[1], e[2])), ms)
                  IN Cl("values", \A b \in 1..nb : Agrees(t, x[b], o.values[b][e[1] + 1][e[2] + 1]))
                     \cup (IF c.how = "sum" /\ c.weights # <<>> /\ Aligned(c.g) THEN Cl("unchanged", \A b \in 1..nb : Agrees(t, ms[b], o.values[b][e[1] + 1][e[2] + 1])) ELSE {})
  IN UNION {fails(e) : e \in decided}

\* --------------------------------------------------------- grid and validity
GridFailing(c, o) ==
  LET g == c.g
      x == PanCols(g)  y == PanRows(g)
      near(a, b) == RNear(a, b, R(c.scale) ** "0.00001")
      w == R(c.scale) ** R(g.px)  h == R(c.scale) ** R(g.py)
  IN Cl("shape", o.shape = Shape(c))
     \cup Cl("transform", IF c.georef = "none" THEN TRUE
                          ELSE /\ near(o.transform[1], w) /\ near(o.transform[2], h)
                               /\ near(o.transform[3], R(c.origin[1]) ++ (w ** R(x[1]))) /\ near(o.transform[4], R(c.origin[2]) -- (h ** R(y[1]))))
     \cup Cl("crs", o.crs)
     \cup Cl("colours", /\ Len(o.colours) = Len(Bands(c))
                       \* formats may call an undefined colour grey
                       /\ \A b \in DOMAIN Bands(c) : LET m == o.mscolours[Bands(c)[b]] IN o.colours[b] = m \/ (m = "undefined" /\ o.colours[b] = "gray"))
     \cup Cl("dtype", o.dtype = OutType(c))
ValidFailing(c, o) ==
  LET wh == TLCEval(Where(c))
      \* a value that is the nodata value of the output
      clash(e) == LET x == Sharpened(TheModel(c, o), R(PanAt(c, e[1], e[2])), [b \in DOMAIN Bands(c) |-> MsValue(c, o, b, e[1], e[2])]) IN
                  o.nodata # "none" /\ \A b \in DOMAIN x : Agrees(OutType(c), x[b], o.nodata)
      fails(e) == IF Undecided(c, wh, e[1], e[2]) THEN {} ELSE LET v == Valid(c, o, wh, e[1], e[2])  seen == o.valid[e[1] + 1][e[2] + 1] = 1 IN
                  Cl("valid", v => seen \/ clash(e)) \cup Cl("invalid", ~v => ~seen)
  IN UNION {fails(e) : e \in Cells(c)}
=============================================================================
