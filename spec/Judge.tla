------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Trace validation with total verdicts.  The trace is a sequence of runs  *)
(* recorded from the implementation (one JSON object per line); the module *)
(* that extends this one says, for each run, which clauses of its          *)
(* specification the run fails to satisfy.  One step consumes one run.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT Failing(_)      \* the names of the clauses that a run violates

VARIABLES l,             \* position in the trace
          bad            \* the runs that no behaviour of the specification explains

Trace == ndJsonDeserialize(IOEnv.VF_TRACE)

Init == l = 1 /\ bad = <<>>

Consume ==
  /\ l <= Len(Trace)
  /\ LET f == Failing(Trace[l]) IN
       bad' = IF f = {} THEN bad
              ELSE Append(bad, [id |-> Trace[l].id, clauses |-> SetToSeq(f)])
  /\ l' = l + 1

Report ==
  /\ l = Len(Trace) + 1
  /\ JsonSerialize(IOEnv.VF_VERDICT, bad)
  /\ l' = l + 1
  /\ UNCHANGED bad

Next == Consume \/ Report

(* the clause `name' fails unless ok *)
Cl(name, ok) == IF ok THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
Completed(run) == "outcome" \in DOMAIN run.obs /\ run.obs.outcome = "ok"
=============================================================================
