------------------------------ MODULE PanStats ------------------------------
(***************************************************************************)
(* The statistics of pan-sharpening as a process: the valid pixels of the  *)
(* images are split into tiles, workers find the statistics of the tiles,  *)
(* and these are merged as they complete, in any order.  Whatever the      *)
(* split and the order, the result is that of all the pixels at once.      *)
(*                                                                         *)
(* A pixel is <<pan, ms>>; rationals are <<numerator, denominator>>.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

CONSTANTS Pixels,      \* the values of the pixels of the images, a function
          Tilings      \* assignments of pixels to tiles: functions from DOMAIN Pixels to tile numbers, and the number of tiles

VARIABLES tiling,      \* <<assignment, number of tiles>>
          waiting,     \* tiles that have not been read
          ready,       \* tiles with statistics that have not been merged
          n, mean, prod
vars == <<tiling, waiting, ready, n, mean, prod>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
LOCAL AbsI(a) == IF a < 0 THEN -a ELSE a
Q(a, b) == IF a = 0 THEN <<0, 1>> ELSE LET g == Gcd(AbsI(a), b) IN <<a \div g, b \div g>>
QAdd(x, y) == Q((x[1] * y[2]) + (y[1] * x[2]), x[2] * y[2])
QSub(x, y) == Q((x[1] * y[2]) - (y[1] * x[2]), x[2] * y[2])
QMul(x, y) == Q(x[1] * y[1], x[2] * y[2])

Bands == 1..2
SumOver(S, b) == MapThenSumSet(LAMBDA i : Pixels[i][b], S)
SumProd(S, a, b) == MapThenSumSet(LAMBDA i : Pixels[i][a] * Pixels[i][b], S)
\* the mean, and the sum of the products of deviations, over a set of pixels
MeanOf(S) == [b \in Bands |-> IF S = {} THEN Q(0, 1) ELSE Q(SumOver(S, b), Cardinality(S))]
ProdOf(S) == [a \in Bands |-> [b \in Bands |-> IF S = {} THEN Q(0, 1) ELSE QSub(Q(SumProd(S, a, b), 1), Q(SumOver(S, a) * SumOver(S, b), Cardinality(S)))]]

InTile(t) == {i \in DOMAIN Pixels : tiling[1][i] = t}

Init == /\ tiling \in Tilings
        /\ waiting = 1..tiling[2] /\ ready = {}
        /\ n = 0 /\ mean = MeanOf({}) /\ prod = ProdOf({})
\* a worker has read a tile
Read(t) == waiting' = waiting \ {t} /\ ready' = ready \cup {t} /\ UNCHANGED <<tiling, n, mean, prod>>
\* the statistics of a tile are merged
Merge(t) ==
  LET S == InTile(t)  k == Cardinality(S)  m == MeanOf(S)  p == ProdOf(S)
      d(b) == QSub(m[b], mean[b])
  IN /\ ready' = ready \ {t} /\ UNCHANGED <<tiling, waiting>>
     /\ IF k = 0 THEN UNCHANGED <<n, mean, prod>>
        ELSE /\ n' = n + k
             /\ mean' = [b \in Bands |-> QAdd(mean[b], QMul(d(b), Q(k, n + k)))]
             /\ prod' = [a \in Bands |-> [b \in Bands |-> QAdd(prod[a][b], QAdd(p[a][b], QMul(QMul(d(a), d(b)), Q(n * k, n + k))))]]
Next == \/ \E t \in waiting : Read(t)
        \/ \E t \in ready : Merge(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Merged == UNION {InTile(t) : t \in (1..tiling[2]) \ (waiting \cup ready)}
\* at every point, the statistics are those of the pixels merged so far
Exact == n = Cardinality(Merged) /\ mean = MeanOf(Merged) /\ prod = ProdOf(Merged)
Ends == <>(waiting = {} /\ ready = {} /\ n = Cardinality(DOMAIN Pixels))
=============================================================================
