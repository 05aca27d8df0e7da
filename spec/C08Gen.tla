------------------------------- MODULE C08Gen -------------------------------
(* Histories of calls.  Every call is enabled in every state of Files. *)
EXTENDS Gen

F == INSTANCE Files WITH MaxSteps <- 0, fs <- done, last <- done, n <- done

OpSeq == SetToSeq(F!Ops)
C(op, out, ow, var, fault) == [kind |-> "call", call |-> [op |-> op, out |-> IF op \in F!ImageOps THEN out ELSE "-", ow |-> ow, var |-> var, fault |-> fault], slot |-> ""]
P(s) == [kind |-> "put", slot |-> s]
E(s) == [kind |-> "empty", slot |-> s]
X(s) == [kind |-> "rm", slot |-> s]
SlotSeq(op, var) == SetToSeq(F!SlotsOf(C(op, "a", FALSE, var, "none").call))
Puts(op) == [k \in 1..Len(SlotSeq(op, 1)) |-> P(SlotSeq(op, 1)[k])]

FaultHistory(op, f) ==
  << C(op, "a", FALSE, 1, f), C(op, "a", TRUE, 1, f) >> \o Puts(op) \o << C(op, "a", TRUE, 1, f), C(op, "a", FALSE, 1, f), C(op, "a", TRUE, 2, "none"), C(op, "a", TRUE, 1, f) >>
ValidHistory(op) ==
  << C(op, "a", FALSE, 1, "none"), C(op, "a", FALSE, 2, "none"), C(op, "a", TRUE, 2, "none"), C(op, "a", FALSE, 2, "none"), C(op, "a", TRUE, 1, "none") >>
  \o Puts(op) \o << C(op, "a", FALSE, 1, "none"), C(op, "a", TRUE, 2, "none") >>
  \o FlattenSeq([k \in 1..Len(SlotSeq(op, 2)) |->
       << X(SlotSeq(op, 2)[k]), C(op, "a", FALSE, 2, "none"), C(op, "a", TRUE, 2, "none") >>])
  \o [k \in 1..Len(SlotSeq(op, 2)) |-> E(SlotSeq(op, 2)[k])]
  \o << C(op, "a", FALSE, 2, "none"), C(op, "a", TRUE, 2, "none"), P("a"), C(op, "b", FALSE, 1, "none"), C(op, "b", TRUE, 1, "none") >>

Step(h, k) ==
  LET q == 211 * h + 17 * k
      op == Pick(OpSeq, Rnd(q, 13))
      fl == SetToSeq(F!FaultsOf(op))
      r == Rnd(q + 5, 10)
  IN IF r = 0 THEN P(Pick(<<"a", "b", "c0", "c1", "int", "ext", "rpc", "gcp">>, Rnd(q + 1, 8)))
     ELSE IF r = 1 THEN X(Pick(<<"a", "b", "c0", "c1", "int", "ext", "rpc", "gcp">>, Rnd(q + 1, 8)))
     ELSE C(op, <<"a", "b">>[1 + Rnd(q + 2, 2)], Rnd(q + 3, 2) = 0, 1 + Rnd(q + 4, 2), IF r = 2 THEN Pick(fl, Rnd(q + 6, Len(fl))) ELSE "none")

FaultPairs == SetToSeq(UNION {{<<op, f>> : f \in F!FaultsOf(op)} : op \in F!Ops})
LocalCases ==
  [k \in 1..Len(FaultPairs) |-> [name |-> FaultPairs[k][1] \o "-" \o FaultPairs[k][2], steps |-> FaultHistory(FaultPairs[k][1], FaultPairs[k][2])]]
  \o [k \in 1..Len(OpSeq) |-> [name |-> OpSeq[k], steps |-> ValidHistory(OpSeq[k])]]
  \o [h \in 1..(IF Thorough THEN 400 ELSE 40) |-> [name |-> "history-" \o ToString(h), steps |-> [k \in 1..10 |-> Step(h, k)]]]
  \* a block size that rasterio rejects after it has created the file; an unreadable TIFF in the way
  \o << [name |-> "block-size", steps |-> <<P("a"), C("ortho", "a", TRUE, 1, "block-size")>>],
        [name |-> "interleave", steps |-> <<C("ortho", "a", TRUE, 1, "none"), C("ortho", "a", TRUE, 1, "interleave")>>],
        [name |-> "broken-tiff", steps |-> <<[kind |-> "break", slot |-> "a"], C("ortho", "a", TRUE, 1, "none")>>] >>

\* the same histories on another file system (through file objects); directories always exist there
MemCases ==
  LET ok(c) == \A k \in DOMAIN c.steps : c.steps[k].kind \in {"rm", "empty"} \/ c.steps[k].kind = "put" \/ (c.steps[k].kind = "call" /\ c.steps[k].call.fault \notin {"missing-dir", "block-size", "interleave"})
  IN SelectSeq(LocalCases, ok)
GenCases ==
  [k \in 1..Len(LocalCases) |-> LocalCases[k] @@ [fs |-> "local"]]
  \o [k \in 1..Len(MemCases) |-> [MemCases[k] EXCEPT !.name = "mem-" \o MemCases[k].name] @@ [fs |-> "memory"]]
=============================================================================
