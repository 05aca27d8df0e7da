------------------------------- MODULE C10Gen -------------------------------
(* Histories of two cameras of a kind, with the parameters that each has at each step. *)
EXTENDS Gen, CameraCases

H == INSTANCE CameraHist WITH NPoses <- 7, NAlphas <- 6, MaxSteps <- 0, NCams <- 2, param <- done, und <- done, maps <- done, answer <- done, n <- done

Kinds == <<"pinhole", "brown", "opencv", "fisheye", "brown", "opencv", "fisheye", "rpc">>
QSeq == SetToSeq(H!Queries)
\* interiors of the cameras: the same, or another one of the same image size, or any
Interior(type, k) ==
  LET i == Pick(Interiors, k) IN i @@ [type |-> type, dist |-> Pick(Dists(type), (k \div 4))]
Act(h, k) ==
  LET q == 173 * h + 29 * k
      r == Rnd(q, 12)
  IN [cam |-> 1 + Rnd(q + 1, 2)] @@
     (IF r < 2 THEN [kind |-> "update", value |-> 1 + Rnd(q + 2, 7)]
      ELSE IF r < 4 THEN [kind |-> "alpha", value |-> 1 + Rnd(q + 2, 6)]
      ELSE IF r < 6 THEN [kind |-> "distort", value |-> Rnd(q + 2, 2)]
      ELSE IF r = 6 THEN [kind |-> "bad-update", value |-> "-"]
      ELSE IF r = 7 THEN [kind |-> "bad-query", value |-> Pick(QSeq, Rnd(q + 3, 99))]
      ELSE [kind |-> "query", value |-> Pick(QSeq, Rnd(q + 3, 99))])
Run(p0, acts) ==
  LET st[k \in 0..Len(acts)] == IF k = 0 THEN p0 ELSE LET s == st[k-1] IN [s EXCEPT ![acts[k].cam] = H!After(s[acts[k].cam], acts[k])]
  IN [k \in 1..Len(acts) |-> acts[k] @@ [at |-> st[k][acts[k].cam]]]
Q(c, q) == [cam |-> c, kind |-> "query", value |-> q]
\* every query before and after every change
Around(change) ==
  <<[cam |-> 1, kind |-> "update", value |-> 1], [cam |-> 2, kind |-> "update", value |-> 2]>>
  \o FlattenSeq([k \in 1..Len(QSeq) |-> <<Q(1, QSeq[k]), Q(2, QSeq[k])>>]) \o <<change>> \o [k \in 1..Len(QSeq) |-> Q(1, QSeq[k])] \o [k \in 1..Len(QSeq) |-> Q(2, QSeq[k])]
Changes == <<[cam |-> 1, kind |-> "update", value |-> 5], [cam |-> 1, kind |-> "update", value |-> 6], [cam |-> 1, kind |-> "update", value |-> 3], [cam |-> 1, kind |-> "update", value |-> 7], [cam |-> 1, kind |-> "alpha", value |-> 1], [cam |-> 1, kind |-> "alpha", value |-> 3],
             [cam |-> 1, kind |-> "alpha", value |-> 5], [cam |-> 1, kind |-> "alpha", value |-> 6], [cam |-> 1, kind |-> "distort", value |-> 1], [cam |-> 1, kind |-> "distort", value |-> 0]>>
P0(h) == [c \in 1..2 |-> H!NewParams(1 + Rnd(7 * h + c, 4), Rnd(7 * h + c + 3, 3) = 0)]
LocalPoses == <<
  [xyz |-> <<"300010.5", "6199990.25", "190">>, opk |-> <<"1.5", "-2", "33">>],
  [xyz |-> <<"300000", "6200000", "180">>, opk |-> <<"0", "0", "0">>],
  [xyz |-> <<"299985.75", "6200012", "205.5">>, opk |-> <<"-9", "6", "-121">>],
  [xyz |-> <<"300020", "6199975.5", "230">>, opk |-> <<"12", "4", "95">>] >>
\* poses 5 and 6 differ from pose 1 in the rotation only, and in the position only (slightly); pose 7 in the rotation only, slightly
PosesOf(h) ==
  LET p(k) == Pick(LocalPoses, h + k) IN
  <<p(1), p(2), p(3), p(4), [p(1) EXCEPT !.opk = p(2).opk], [p(1) EXCEPT !.xyz[3] = @ \o (IF p(1).xyz[3] = "205.5" THEN "01" ELSE ".001")],
    [p(1) EXCEPT !.opk[1] = @ \o (IF p(1).opk[1] = "1.5" THEN "0002" ELSE ".0002")]>>
\* pairs of cameras: identical, same image, different
Cams(type, h) == <<Interior(type, Rnd(h, 20)), Interior(type, IF Rnd(h + 1, 3) = 0 THEN Rnd(h, 20) ELSE IF Rnd(h + 1, 3) = 1 THEN Rnd(h, 20) + 4 ELSE Rnd(h + 2, 20))>>
Case(name, type, h, acts) ==
  [name |-> name, type |-> type, poses |-> PosesOf(h), start |-> P0(h), steps |-> Run(P0(h), acts)]
  @@ (IF type = "rpc" THEN [cams |-> <<>>] ELSE [cams |-> Cams(type, h)])
NoUpdate(acts) == SelectSeq(acts, LAMBDA a : a.kind \in {"query", "bad-query"})
\* one query again and again, with changes in between
Again(q, h) ==
  LET ch(k) == Pick(Changes, Rnd(3 * h + k, 99)) IN
  <<[cam |-> 1, kind |-> "update", value |-> 1], [cam |-> 2, kind |-> "update", value |-> 1], [cam |-> 1, kind |-> "distort", value |-> 0],
    Q(1, q), Q(1, q), Q(2, q), ch(1), Q(1, q), Q(2, q), ch(2), Q(1, q), ch(3), Q(1, q), Q(2, q), Q(1, q)>>
GenCases ==
  FlattenSeq([k \in 1..8 |-> [c \in 1..Len(Changes) |-> Case(Kinds[k] \o "-around-" \o ToString(c), Kinds[k], 11 * k + c, IF Kinds[k] = "rpc" THEN NoUpdate(Around(Changes[c])) ELSE Around(Changes[c]))]])
  \o FlattenSeq([k \in 1..(IF Thorough THEN 8 ELSE 7) |-> [q \in 1..Len(QSeq) |-> LET t == (<<"rpc">> \o Kinds)[k]  acts == Again(QSeq[q], 10 * k + q) IN
       Case("again-" \o QSeq[q] \o "-" \o ToString(k), t, 17 * k + q, IF t = "rpc" THEN NoUpdate(acts) ELSE acts)]])
  \o [h \in 1..(IF Thorough THEN 600 ELSE 64) |->
       LET type == Pick(Kinds, h)
           acts == [k \in 1..16 |-> Act(h, k)]
       IN Case(type \o "-history-" \o ToString(h), type, h, IF type = "rpc" THEN NoUpdate(acts) ELSE acts)]
=============================================================================
