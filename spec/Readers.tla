------------------------------ MODULE Readers -------------------------------
(***************************************************************************)
(* Reading the metadata of a list of images in parallel.                   *)
(*                                                                         *)
(* A pool of Workers threads reads images in any order; the caller takes   *)
(* the results in the order of the list.  Kind[i] is "ok", "missing" (no   *)
(* such file) or "broken" (without the metadata, or not an image).         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Kinds,         \* set of sequences
          Workers
VARIABLES kind, queue, reading, done, result, outcome
vars == <<kind, queue, reading, done, result, outcome>>

N == Len(kind)
Init == /\ kind \in Kinds
        /\ queue = 1 /\ reading = {} /\ done = {} /\ result = <<>> /\ outcome = <<"running", 0>>
Start == /\ queue <= N /\ Cardinality(reading) < Workers
         /\ reading' = reading \cup {queue} /\ queue' = queue + 1 /\ UNCHANGED <<kind, done, result, outcome>>
Complete(i) == /\ i \in reading /\ reading' = reading \ {i} /\ done' = done \cup {i} /\ UNCHANGED <<kind, queue, result, outcome>>
Take == /\ outcome[1] = "running" /\ Len(result) < N /\ Len(result) + 1 \in done
        /\ LET i == Len(result) + 1 IN
           IF kind[i] = "ok" THEN result' = Append(result, i) /\ UNCHANGED outcome
           ELSE outcome' = <<kind[i], i>> /\ result' = <<>>
        /\ UNCHANGED <<kind, queue, reading, done>>
Return == outcome[1] = "running" /\ Len(result) = N /\ outcome' = <<"returned", 0>> /\ UNCHANGED <<kind, queue, reading, done, result>>
Next == Start \/ (\E i \in reading : Complete(i)) \/ Take \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ WF_vars(Take) /\ WF_vars(Return)

AllOk(k) == \A i \in DOMAIN k : k[i] = "ok"
Ordered == \A i \in DOMAIN result : result[i] = i
Complete_ == outcome[1] = "returned" => Len(result) = N
NoPartial == outcome[1] \notin {"running", "returned"} => result = <<>>
NamesFailing == outcome[1] \notin {"running", "returned"} => kind[outcome[2]] = outcome[1] /\ kind[outcome[2]] # "ok"
ReturnsIffOk == /\ outcome[1] = "returned" => AllOk(kind)
                /\ outcome[1] \notin {"running", "returned"} => ~AllOk(kind)
Terminates == <>(outcome[1] # "running")
=============================================================================
