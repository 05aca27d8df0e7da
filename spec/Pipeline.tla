------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* Processing of tiles by a pool of threads.  A run is a sequence of       *)
(* phases; in each, the main thread takes some steps, submits one job for  *)
(* each tile and collects the jobs' results.  A job is a sequence of       *)
(* steps: "compute", or the access to a dataset ("pan", "ms", "out") that  *)
(* is guarded by the lock of the dataset.  Any step can fail.              *)
(*                                                                         *)
(*   ortho, all bands:   phase 1: main reads "src"; jobs compute, out      *)
(*   ortho, per band:    one such phase for each band                      *)
(*   pan-sharpening:     phase 1 (statistics): jobs pan, ms, compute;      *)
(*                       phase 2: jobs pan, ms, compute, out               *)
(* After the last phase overviews are built, the pool is shut down and the *)
(* output is closed.                                                       *)
(***************************************************************************)
EXTENDS PipelineLog, TLC

CONSTANTS Tiles,        \* number of tiles of the output
          StatTiles,    \* number of jobs of the statistics phase (pan)
          Workers,      \* number of threads
          Kind,         \* "ortho", "perband" or "pan"
          Bands, Masked, Ovw,
          MaxFaults,
          Locked,       \* FALSE: a design without locks (rejected by the invariants)
          Waits,        \* FALSE: a design that does not wait for running jobs when one fails
          Collects,     \* FALSE: a design that ignores the result of one job
          KeepLog

None == "none"
Phases == IF Kind = "perband" THEN Bands ELSE IF Kind = "pan" THEN 2 ELSE 1
JobsOf(p) == IF Kind = "pan" /\ p = 1 THEN 1..StatTiles ELSE 1..Tiles
JobSet == {<<p, t>> \in (1..Phases) \X (1..(IF StatTiles > Tiles THEN StatTiles ELSE Tiles)) : t \in JobsOf(p)}
Prog(p) == IF Kind # "pan" THEN <<"compute", "out">>
           ELSE IF p = 1 THEN <<"pan", "ms", "compute">> ELSE <<"pan", "ms", "compute", "out">>
BandsOf(p) == IF Kind = "perband" THEN {p} ELSE 1..Bands
WritesMask(p) == Masked /\ (Kind # "perband" \/ p = 1)
SetToSeq1(S) == IF S = {} THEN <<>> ELSE [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1]

VARIABLES pc, phase, state, at, owner, lock, cells, mask, open, log, outcome, faults
vars == <<pc, phase, state, at, owner, lock, cells, mask, open, log, outcome, faults>>
(* state[j]: "none" (not submitted), "queued", "running", "ok", "failed"; at[j]: <<step, inside>>; owner[j]: its thread *)

Log(e) == IF KeepLog THEN log' = Append(log, e) ELSE UNCHANGED log
Log2(e, f) == IF KeepLog THEN log' = log \o <<e, f>> ELSE UNCHANGED log

TypeOK == /\ pc \in {"read", "submit", "collect", "overviews", "shutdown", "close", "done"}
          /\ phase \in 1..Phases
          /\ state \in [JobSet -> {"none", "queued", "running", "ok", "failed"}]
          /\ lock \in [{"pan", "ms", "out"} -> Workers \cup {None}]

Init == /\ pc = "read" /\ phase = 1
        /\ state = [j \in JobSet |-> "none"]
        /\ at = [j \in JobSet |-> <<1, FALSE>>]
        /\ owner = [j \in JobSet |-> None]
        /\ lock = [d \in {"pan", "ms", "out"} |-> None]
        /\ cells = [b \in 1..Bands |-> [t \in 1..Tiles |-> 0]]
        /\ mask = [t \in 1..Tiles |-> 0]
        /\ open = TRUE /\ log = <<>> /\ outcome = None /\ faults = 0

CanFail == faults < MaxFaults
RaiseTo(p, e) == pc' = p /\ outcome' = "error" /\ faults' = faults + 1 /\ Log(e)

\* ------------------------------------------------------------- main thread
MainRead ==
  /\ pc = "read"
  /\ \/ /\ pc' = "submit" /\ UNCHANGED <<outcome, faults>>
        /\ IF Kind = "pan" THEN UNCHANGED log
           ELSE Log2([ev |-> "begin", th |-> "main", ds |-> "src", op |-> "read"], [ev |-> "end", th |-> "main", ds |-> "src", op |-> "read"])
     \/ /\ CanFail /\ RaiseTo("shutdown", [ev |-> "fault", th |-> "main", op |-> "read"])
  /\ UNCHANGED <<phase, state, at, owner, lock, cells, mask, open>>
Submit ==
  /\ pc = "submit" /\ pc' = "collect"
  /\ state' = [j \in JobSet |-> IF j[1] = phase THEN "queued" ELSE state[j]]
  /\ UNCHANGED <<phase, at, owner, lock, cells, mask, open, log, outcome, faults>>
(* results are taken in the order of submission; a failed job makes the call raise *)
InOrder(j) == \A i \in JobSet : i[1] = phase /\ i[2] < j[2] => state[i] = "ok"
CollectFailed ==
  /\ pc = "collect"
  /\ \E j \in JobSet : j[1] = phase /\ state[j] = "failed" /\ ((Kind = "pan" /\ phase = 1) \/ InOrder(j)) /\ (Collects \/ j[2] # 1)
  /\ pc' = "shutdown" /\ outcome' = "error"
  /\ UNCHANGED <<phase, state, at, owner, lock, cells, mask, open, log, faults>>
CollectAll ==
  /\ pc = "collect"
  /\ \A j \in JobSet : j[1] = phase => state[j] = "ok" \/ (~Collects /\ j[2] = 1 /\ state[j] = "failed")
  /\ IF phase < Phases THEN phase' = phase + 1 /\ pc' = "read" ELSE phase' = phase /\ pc' = "overviews"
  /\ UNCHANGED <<state, at, owner, lock, cells, mask, open, log, outcome, faults>>
Overviews ==
  /\ pc = "overviews"
  /\ \/ /\ pc' = "shutdown" /\ UNCHANGED <<outcome, faults>>
        /\ IF Ovw THEN Log2([ev |-> "begin", th |-> "main", ds |-> "out", op |-> "overviews"], [ev |-> "end", th |-> "main", ds |-> "out", op |-> "overviews"])
           ELSE UNCHANGED log
     \/ /\ Ovw /\ CanFail /\ RaiseTo("shutdown", [ev |-> "fault", th |-> "main", op |-> "overviews"])
  /\ UNCHANGED <<phase, state, at, owner, lock, cells, mask, open>>
(* the pool runs what it has been given before it ends *)
Shutdown ==
  /\ pc = "shutdown"
  /\ Waits => \A j \in JobSet : state[j] \notin {"queued", "running"}
  /\ pc' = "close"
  /\ UNCHANGED <<phase, state, at, owner, lock, cells, mask, open, log, outcome, faults>>
Close ==
  /\ pc = "close" /\ pc' = "done" /\ open' = FALSE
  /\ outcome' = IF outcome = None THEN "ok" ELSE outcome
  /\ Log2([ev |-> "close", ds |-> "out"], [ev |-> IF outcome = None THEN "return" ELSE "raise"])
  /\ UNCHANGED <<phase, state, at, owner, lock, cells, mask, faults>>

\* ---------------------------------------------------------------- workers
Busy(w) == \E j \in JobSet : state[j] = "running" /\ owner[j] = w
Start(w, j) ==
  /\ ~Busy(w) /\ state[j] = "queued"
  /\ \A i \in JobSet : i[1] = j[1] /\ i[2] < j[2] => state[i] # "queued"      \* first in, first out
  /\ state' = [state EXCEPT ![j] = "running"] /\ owner' = [owner EXCEPT ![j] = w]
  /\ Log([ev |-> "start", th |-> w, job |-> j])
  /\ UNCHANGED <<pc, phase, at, lock, cells, mask, open, outcome, faults>>
Step(j) == Prog(j[1])[at[j][1]]
Next2(j) == IF at[j][1] = Len(Prog(j[1])) THEN [state EXCEPT ![j] = "ok"] ELSE state
Compute(j) ==
  /\ state[j] = "running" /\ Step(j) = "compute"
  /\ state' = Next2(j) /\ at' = [at EXCEPT ![j] = <<@[1] + 1, FALSE>>]
  /\ IF state'[j] = "ok" THEN Log2([ev |-> "computed", job |-> j], [ev |-> "stop", th |-> owner[j], job |-> j])
     ELSE Log([ev |-> "computed", job |-> j])
  /\ UNCHANGED <<pc, phase, owner, lock, cells, mask, open, outcome, faults>>
Acquire(j) ==
  /\ state[j] = "running" /\ Step(j) # "compute" /\ ~at[j][2]
  /\ (Locked => lock[Step(j)] = None)
  /\ lock' = [lock EXCEPT ![Step(j)] = owner[j]]
  /\ at' = [at EXCEPT ![j] = <<@[1], TRUE>>]
  /\ Log([ev |-> "begin", th |-> owner[j], ds |-> Step(j), op |-> IF Step(j) = "out" THEN "write" ELSE "read", win |-> <<j[2] - 1, 0, 1, 1>>, bands |-> <<>>])
  /\ UNCHANGED <<pc, phase, state, owner, cells, mask, open, outcome, faults>>
Release(j) ==
  /\ state[j] = "running" /\ Step(j) # "compute" /\ at[j][2]
  /\ lock' = [lock EXCEPT ![Step(j)] = None]
  /\ at' = [at EXCEPT ![j] = <<@[1] + 1, FALSE>>]
  /\ state' = Next2(j)
  /\ IF Step(j) = "out"
     THEN /\ cells' = [b \in 1..Bands |-> IF b \in BandsOf(j[1]) THEN [cells[b] EXCEPT ![j[2]] = @ + 1] ELSE cells[b]]
          /\ mask' = IF WritesMask(j[1]) THEN [mask EXCEPT ![j[2]] = @ + 1] ELSE mask
     ELSE UNCHANGED <<cells, mask>>
  /\ LET wr == [ev |-> "end", th |-> owner[j], ds |-> Step(j), op |-> IF Step(j) = "out" THEN "write" ELSE "read",
                win |-> <<j[2] - 1, 0, 1, 1>>, bands |-> SetToSeq1(BandsOf(j[1]))]
         mb == [ev |-> "begin", th |-> owner[j], ds |-> "out", op |-> "mask", win |-> <<j[2] - 1, 0, 1, 1>>, bands |-> <<0>>]
         mk == [mb EXCEPT !.ev = "end"]
         st == [ev |-> "stop", th |-> owner[j], job |-> j]
     IN IF KeepLog THEN log' = log \o (<<wr>> \o (IF Step(j) = "out" /\ WritesMask(j[1]) THEN <<mb, mk>> ELSE <<>>) \o (IF state'[j] = "ok" THEN <<st>> ELSE <<>>))
        ELSE UNCHANGED log
  /\ UNCHANGED <<pc, phase, owner, open, outcome, faults>>
JobFails(j) ==
  /\ state[j] = "running" /\ CanFail
  /\ state' = [state EXCEPT ![j] = "failed"] /\ faults' = faults + 1
  /\ lock' = IF at[j][2] THEN [lock EXCEPT ![Step(j)] = None] ELSE lock       \* locks are released on failure
  /\ IF KeepLog THEN log' = log \o ((IF at[j][2] THEN <<[ev |-> "end", th |-> owner[j], ds |-> Step(j), op |-> "failed"]>> ELSE <<>>)
                                    \o <<[ev |-> "fault", th |-> owner[j], op |-> Step(j)], [ev |-> "stop", th |-> owner[j], job |-> j]>>)
     ELSE UNCHANGED log
  /\ UNCHANGED <<pc, phase, at, owner, cells, mask, open, outcome>>

WorkerStep == \E j \in JobSet : Compute(j) \/ Acquire(j) \/ Release(j) \/ \E w \in Workers : Start(w, j)
MainStep == MainRead \/ Submit \/ CollectFailed \/ CollectAll \/ Overviews \/ Shutdown \/ Close
Next == MainStep \/ WorkerStep \/ \E j \in JobSet : JobFails(j)
(* every step takes the run forward, so weak fairness of the steps is enough to end it *)
Fair == WF_vars(MainStep \/ WorkerStep)
Spec == Init /\ [][Next]_vars /\ Fair

\* -------------------------------------------------------------- properties
(* C03, C04 on the state *)
Once == outcome = "ok" => /\ \A b \in 1..Bands, t \in 1..Tiles : cells[b][t] = 1
                          /\ \A t \in 1..Tiles : mask[t] = IF Masked THEN 1 ELSE 0
AtMostOnce == \A b \in 1..Bands, t \in 1..Tiles : cells[b][t] <= 1 /\ mask[t] <= 1
NoSuccessWithFault == outcome = "ok" => faults = 0
NoErrorWithoutFault == outcome = "error" => faults > 0
NoAccessWhenClosed == ~open => \A j \in JobSet : state[j] \notin {"queued", "running"}
Mutex == \A i, j \in JobSet : (i # j /\ state[i] = "running" /\ state[j] = "running" /\ at[i][2] /\ at[j][2]) => Step(i) # Step(j)
LateOverviews == pc \in {"shutdown", "close", "done"} /\ outcome # "error" => \A j \in JobSet : state[j] = "ok"
Terminates == <>(pc = "done")
NeverStuck == pc # "done" => ENABLED (MainStep \/ WorkerStep)

(* the same on the log *)
Shape == [count |-> Bands, width |-> Tiles, height |-> 1]
LogOk == pc = "done" =>
         /\ Exclusive(log) /\ WrittenOnce(log, Shape) /\ MaskOnce(log, Shape, Masked) /\ NeverTwice(log, Shape)
         /\ OverviewsLast(log, Ovw) /\ NothingAfter(log) /\ NotClosed(log) /\ JobsDone(log)
         /\ FaultRaises(log) /\ NoFaultReturns(log)
=============================================================================
