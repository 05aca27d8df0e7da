---------------------------- MODULE PipelineLog -----------------------------
(***************************************************************************)
(* What may be observed of a run that processes tiles with a thread pool   *)
(* (ortho.Ortho.process, pan_sharp.PanSharpen.process), stated on the log  *)
(* of its accesses to datasets.  Pipeline.tla is model checked against     *)
(* these operators, and logs recorded from the implementation are judged   *)
(* by the same operators.                                                  *)
(*                                                                         *)
(* A log is a sequence of events                                           *)
(*   [ev |-> "begin" / "end", th, ds, op]   access to a dataset; for the   *)
(*        ops "write" and "mask" also win = <<col, row, width, height>>    *)
(*        and bands                                                        *)
(*   [ev |-> "start" / "stop", th, job]     a job of the thread pool       *)
(*   [ev |-> "close", ds]                   the end of a dataset           *)
(*   [ev |-> "fault", th, op]               a step failed                  *)
(*   [ev |-> "return" / "raise"]            the call ended                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Ended(log) == {k \in DOMAIN log : log[k].ev \in {"return", "raise"}}
Succeeded(log) == \E k \in DOMAIN log : log[k].ev = "return"
Faults(log) == {k \in DOMAIN log : log[k].ev = "fault"}
Of(log, ds, op) == {k \in DOMAIN log : log[k].ev = "end" /\ log[k].ds = ds /\ log[k].op = op}

(* No dataset is accessed by two threads at once. *)
RECURSIVE ExclusiveFrom(_, _, _)
ExclusiveFrom(log, k, held) ==       \* held: {<<dataset, thread>>} inside an access
  IF k > Len(log) THEN TRUE
  ELSE LET e == log[k] IN
    CASE e.ev = "begin" -> /\ \A h \in held : h[1] = e.ds => h[2] = e.th
                           /\ ExclusiveFrom(log, k + 1, held \cup {<<e.ds, e.th>>})
      [] e.ev = "end" -> ExclusiveFrom(log, k + 1, held \ {<<e.ds, e.th>>})
      [] OTHER -> ExclusiveFrom(log, k + 1, held)
Exclusive(log) == ExclusiveFrom(log, 1, {})

(* The windows ws, a sequence, partition a width x height raster. *)
RECURSIVE SumArea(_, _)
SumArea(ws, k) == IF k > Len(ws) THEN 0 ELSE ws[k][3] * ws[k][4] + SumArea(ws, k + 1)
Disjoint(a, b) == \/ a[1] + a[3] <= b[1] \/ b[1] + b[3] <= a[1]
                  \/ a[2] + a[4] <= b[2] \/ b[2] + b[4] <= a[2]
Partition(ws, width, height) ==
  /\ \A k \in DOMAIN ws : ws[k][1] >= 0 /\ ws[k][2] >= 0 /\ ws[k][1] + ws[k][3] <= width /\ ws[k][2] + ws[k][4] <= height
  /\ \A a, b \in DOMAIN ws : a < b => Disjoint(ws[a], ws[b])
  /\ SumArea(ws, 1) = width * height

Windows(log, op, b) ==
  LET sel(e) == e.ev = "end" /\ e.ds = "out" /\ e.op = op /\ b \in {e.bands[n] : n \in DOMAIN e.bands}
  IN [k \in DOMAIN SelectSeq(log, sel) |-> SelectSeq(log, sel)[k].win]

(* Every tile of every band is written exactly once by a run that succeeds. *)
WrittenOnce(log, shape) == Succeeded(log) => \A b \in 1..shape.count : Partition(Windows(log, "write", b), shape.width, shape.height)
(* ... and of the mask, if there is one *)
MaskOnce(log, shape, masked) ==
  Succeeded(log) => IF masked THEN Partition(Windows(log, "mask", 0), shape.width, shape.height) ELSE Windows(log, "mask", 0) = <<>>
(* No write twice, or beyond the image, by any run. *)
NeverTwice(log, shape) ==
  \A b \in 0..shape.count : LET ws == Windows(log, IF b = 0 THEN "mask" ELSE "write", b) IN
    \A m, n \in DOMAIN ws : m < n => Disjoint(ws[m], ws[n])

(* Overviews are built once, after the last tile. *)
OverviewsLast(log, ovw) ==
  /\ \A o \in Of(log, "out", "overviews") : \A k \in DOMAIN log :
       (log[k].ev \in {"begin", "end"} /\ log[k].ds = "out" /\ log[k].op \in {"write", "mask"}) => k < o
  /\ Succeeded(log) => Cardinality(Of(log, "out", "overviews")) = IF ovw THEN 1 ELSE 0

(* Nothing happens after the call has ended, or to a dataset that is closed. *)
NothingAfter(log) == \A e \in Ended(log) : \A k \in DOMAIN log : k > e => log[k].ev \notin {"begin", "end", "start", "stop"}
NotClosed(log) == \A c \in DOMAIN log : log[c].ev = "close" =>
  \A k \in DOMAIN log : (k > c /\ log[k].ev \in {"begin", "end"}) => log[k].ds # log[c].ds
JobsDone(log) == \A e \in Ended(log) :
  Cardinality({k \in DOMAIN log : log[k].ev = "start"}) = Cardinality({k \in DOMAIN log : log[k].ev = "stop"})

(* A failed step is never reported as success, and a run without failure succeeds. *)
FaultRaises(log) == Ended(log) # {} /\ Faults(log) # {} => ~Succeeded(log)
NoFaultReturns(log) == Ended(log) # {} /\ Faults(log) = {} => Succeeded(log)
=============================================================================
