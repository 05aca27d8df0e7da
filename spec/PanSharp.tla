------------------------------ MODULE PanSharp ------------------------------
(***************************************************************************)
(* Gram-Schmidt pan-sharpening of a multispectral (MS) image with a pan    *)
(* image, in closed form.                                                  *)
(*                                                                         *)
(* Both images lie on one integer lattice.  A geometry g has the sizes of  *)
(* the images in pixels (pw, ph, mw, mh), the sizes of their pixels in     *)
(* lattice units (px, py, mx, my), and the position of the top left corner *)
(* of the MS image from that of the pan image in lattice units (ox, oy).   *)
(* A pixel value is an integer, or Invalid.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, TLC, Real64

Invalid == -99999

LOCAL Lo(a, b) == IF a < b THEN a ELSE b
LOCAL Hi(a, b) == IF a < b THEN b ELSE a
CeilDiv(a, b) == -((-a) \div b)

\* ------------------------------------------------------------------ windows
\* the common interval of an axis, in lattice units from the pan origin
Common(pn, p, mn, m, o) == <<Hi(0, o), Lo(pn * p, o + mn * m)>>
Overlap(g) == LET x == Common(g.pw, g.px, g.mw, g.mx, g.ox)  y == Common(g.ph, g.py, g.mh, g.my, g.oy) IN x[1] < x[2] /\ y[1] < y[2]
\* the pixels of an axis that intersect the common interval: <<first, number>>
PixelsOf(c, origin, size) == LET a == (c[1] - origin) \div size  b == CeilDiv(c[2] - origin, size) IN <<a, b - a>>
PanCols(g) == PixelsOf(Common(g.pw, g.px, g.mw, g.mx, g.ox), 0, g.px)
PanRows(g) == PixelsOf(Common(g.ph, g.py, g.mh, g.my, g.oy), 0, g.py)
MsCols(g) == PixelsOf(Common(g.pw, g.px, g.mw, g.mx, g.ox), g.ox, g.mx)
MsRows(g) == PixelsOf(Common(g.ph, g.py, g.mh, g.my, g.oy), g.oy, g.my)
\* pan may not be coarser than MS
Finer(g) == g.px <= g.mx /\ g.py <= g.my

\* --------------------------------------------------------------- resampling
\* nearest: the MS pixel under the centre of pan pixel c, or a tie, or none
Nearest1(c, p, mn, m, o) ==
  LET t == (2 * p * c) + p - (2 * o)  j == t \div (2 * m) IN
  IF t % (2 * m) = 0 THEN "tie" ELSE IF j < 0 \/ j >= mn THEN "none" ELSE "at"
NearestAt(c, p, m, o) == ((2 * p * c) + p - (2 * o)) \div (2 * m)
\* average: the area weighted mean of the valid pan pixels in an MS pixel
LOCAL Len1(c, p, a, b) == Hi(0, Lo((c + 1) * p, b) - Hi(c * p, a))
LOCAL Under(a, b, p, n) == Hi(0, a \div p) .. Lo(n - 1, CeilDiv(b, p) - 1)
PanUnder(g, pan, r, c) ==
  LET x0 == g.ox + c * g.mx  y0 == g.oy + r * g.my
      cells == {<<i, j>> : i \in Under(y0, y0 + g.my, g.py, g.ph), j \in Under(x0, x0 + g.mx, g.px, g.pw)}
      valid == {e \in cells : pan[e[1] + 1][e[2] + 1] # Invalid}
      area(e) == Len1(e[2], g.px, x0, x0 + g.mx) * Len1(e[1], g.py, y0, y0 + g.my)
      total == SumSet({0}) + FoldSet(LAMBDA e, s : s + area(e), 0, valid)
  IN IF total = 0 THEN [ok |-> FALSE, v |-> 0]
     ELSE [ok |-> TRUE, v |-> FoldSet(LAMBDA e, s : s ++ (R(area(e)) ** R(pan[e[1] + 1][e[2] + 1])), R(0), valid) // R(total)]

\* --------------------------------------------------------------- statistics
Indices(n) == [i \in 1..n |-> i]
SumOf(a, n) == FoldLeft(LAMBDA s, i : s ++ a[i], R(0), Indices(n))
DotOf(a, b, n) == FoldLeft(LAMBDA s, i : s ++ (a[i] ** b[i]), R(0), Indices(n))
\* every MS pixel of the common area is a whole number of pixels of the pan image
Within1(pn, p, mn, m, o) == LET c == Common(pn, p, mn, m, o) IN m % p = 0 /\ o % p = 0 /\ (c[1] - o) % m = 0 /\ (c[2] - o) % m = 0
Aligned(g) == Within1(g.pw, g.px, g.mw, g.mx, g.ox) /\ Within1(g.ph, g.py, g.mh, g.my, g.oy)
\* averages: <<>>, or the area weighted averages of the environment ("none" where invalid) on the MS window, where the pixels are not aligned
\* samples: band sequences (pan first) over all mutually valid pixels of the MS grid within the common area
Samples(g, pan, ms, bands, averages) ==
  LET cs == MsCols(g)  rs == MsRows(g)
      all == [k \in 1..(cs[2] * rs[2]) |-> LET r == rs[1] + ((k - 1) \div cs[2])  c == cs[1] + ((k - 1) % cs[2]) IN
               [p |-> IF averages = <<>> THEN PanUnder(g, pan, r, c) ELSE LET v == averages[r - rs[1] + 1][c - cs[1] + 1] IN [ok |-> v # "none", v |-> IF v = "none" THEN 0 ELSE R(v)], r |-> r + 1, c |-> c + 1]]
      ok(e) == e.p.ok /\ \A b \in DOMAIN bands : ms[bands[b]][e.r][e.c] # Invalid
      good == TLCEval(SelectSeq(TLCEval(all), ok))
  IN [n |-> Len(good),
      x |-> TLCEval([b \in 0..Len(bands) |-> TLCEval([k \in 1..Len(good) |-> IF b = 0 THEN good[k].p.v ELSE R(ms[bands[b]][good[k].r][good[k].c])])])]
Stats(s, nb) ==
  LET mean == TLCEval([b \in 0..nb |-> SumOf(s.x[b], s.n) // R(s.n)])
      dev == TLCEval([b \in 0..nb |-> TLCEval([k \in 1..s.n |-> s.x[b][k] -- mean[b]])])
  IN [n |-> s.n, mean |-> mean, trace |-> FoldLeft(LAMBDA t, b : t ++ (DotOf(dev[b], dev[b], s.n) // R(Hi(s.n - 1, 1))), R(0), Indices(nb)), cov |-> TLCEval([a \in 0..nb |-> TLCEval([b \in 0..nb |-> DotOf(dev[a], dev[b], s.n) // R(Hi(s.n - 1, 1))])])]

\* ------------------------------------------------------------------ weights
\* the solution of a small linear system by elimination without pivoting (covariance matrices are positive definite)
RECURSIVE Solve(_, _)
Solve(a, y) ==
  LET n == Len(y) IN
  IF n = 1 THEN <<y[1] // a[1][1]>>
  ELSE
  LET f(i) == a[i][1] // a[1][1]
      sub == TLCEval([i \in 1..(n - 1) |-> TLCEval([j \in 1..(n - 1) |-> a[i + 1][j + 1] -- (f(i + 1) ** a[1][j + 1])])])
      ysub == TLCEval([i \in 1..(n - 1) |-> y[i + 1] -- (f(i + 1) ** y[1])])
      rest == Solve(sub, ysub)
      first == FoldLeft(LAMBDA s, j : s -- (a[1][j + 1] ** rest[j]), y[1], Indices(n - 1)) // a[1][1]
  IN <<first>> \o rest
\* least squares weights for a sequence of bands
Fit(cov, bs) == IF bs = <<>> THEN <<>> ELSE Solve([i \in DOMAIN bs |-> [j \in DOMAIN bs |-> cov[bs[i]][bs[j]]]], [i \in DOMAIN bs |-> cov[0][bs[i]]])
Normal(w) == LET t == SumOf(w, Len(w)) IN [b \in DOMAIN w |-> w[b] // t]
Clip(w) == [b \in DOMAIN w |-> RMax(w[b], 0)]
Positive(w) == 0 \prec SumOf(w, Len(w))
\* estimated weights: least squares; bands with negative weights are dropped, and the others fitted again when that leaves no negative weight
Estimated(cov, nb) ==
  LET w == TLCEval(Fit(cov, Indices(nb)))
      pos == SelectSeq(Indices(nb), LAMBDA b : 0 \prec w[b])
      again == TLCEval(Fit(cov, pos))
      use == \A i \in DOMAIN again : 0 \preceq again[i]
      of(b) == IF b \in Range(pos) THEN again[CHOOSE i \in DOMAIN pos : pos[i] = b] ELSE R(0)
  IN IF \A b \in 1..nb : 0 \preceq w[b] THEN w ELSE IF use THEN TLCEval([b \in 1..nb |-> of(b)]) ELSE Clip(w)
\* `given' is a sequence of non-negative weights, or <<>>
WeightsOf(cov, nb, given) == LET w == IF given = <<>> THEN Estimated(cov, nb) ELSE given IN IF Positive(w) THEN TLCEval(Normal(w)) ELSE <<>>

\* -------------------------------------------------------------------- model
\* gains of the bands, and the normalisation of the pan band
Model(st, nb, given) ==
  LET w == WeightsOf(st.cov, nb, given)
      covsim(b) == FoldLeft(LAMBDA s, j : s ++ (w[j] ** st.cov[b][j]), R(0), Indices(nb))
      var == FoldLeft(LAMBDA s, j : s ++ (w[j] ** covsim(j)), R(0), Indices(nb))
      msim == FoldLeft(LAMBDA s, j : s ++ (w[j] ** st.mean[j]), R(0), Indices(nb))
      \* a constant pan image can only be mean-matched
      gain == IF RSqrt(st.cov[0][0]) \preceq (RAbs(st.mean[0]) ** "1e-12") THEN R(1) ELSE RSqrt(var // st.cov[0][0])
  IN IF w = <<>> THEN [w |-> w]
     ELSE [w |-> w, g |-> TLCEval([b \in 1..nb |-> IF var \preceq (st.trace ** "1e-12") THEN R(0) ELSE covsim(b) // var]), gain |-> gain, bias |-> msim -- (gain ** st.mean[0])]
\* the sharpened values of a pixel with pan value p and MS values m
Sharpened(model, p, m) ==
  LET sim == FoldLeft(LAMBDA s, j : s ++ (model.w[j] ** m[j]), R(0), Indices(Len(m)))
      d == ((model.gain ** p) ++ model.bias) -- sim
  IN [b \in DOMAIN m |-> m[b] ++ (model.g[b] ** d)]
=============================================================================
