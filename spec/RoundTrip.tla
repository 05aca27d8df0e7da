----------------------------- MODULE RoundTrip ------------------------------
(***************************************************************************)
(* Exports in the Orthority formats.                                       *)
(*                                                                         *)
(* Parameters are a sequence of entries, one for each camera, image or     *)
(* GCP.  Write puts a document of the parameters in memory in a file, Read *)
(* gives the parameters of the document in a file; the formats differ in   *)
(* how a document names and groups things.  Whatever the history of reads  *)
(* and writes: the parameters in memory are the original ones, and files   *)
(* have the same content.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

(* interior and RPC parameters: a mapping from ID to parameters, in order; cam_type is called type, or left out *)
(* exterior parameters: a feature for each image; the world CRS belongs to the document                         *)
(* GCPs: a feature for each GCP, with the name of its image                                                      *)
Encode(kind, p) ==
  CASE kind = "int" -> [doc |-> [k \in DOMAIN p.entries |-> [id |-> p.entries[k].id, type |-> p.entries[k].cam_type, fields |-> p.entries[k].fields]]]
    [] kind = "rpc" -> [doc |-> [k \in DOMAIN p.entries |-> [id |-> p.entries[k].id, fields |-> p.entries[k].fields]]]
    [] kind = "ext" -> [doc |-> [k \in DOMAIN p.entries |-> [filename |-> p.entries[k].id, fields |-> p.entries[k].fields]], world_crs |-> p.crs]
    [] kind = "gcps" -> [doc |-> FlattenSeq([k \in DOMAIN p.entries |-> [g \in DOMAIN p.entries[k].fields |-> [filename |-> p.entries[k].id, gcp |-> p.entries[k].fields[g]]]])]
RECURSIVE Names(_)
Names(s) == IF s = <<>> THEN <<>> ELSE LET r == Names(Front(s)) IN IF Contains(r, Last(s).filename) THEN r ELSE Append(r, Last(s).filename)
Decode(kind, d) ==
  CASE kind = "int" -> [entries |-> [k \in DOMAIN d.doc |-> [id |-> d.doc[k].id, cam_type |-> d.doc[k].type, fields |-> d.doc[k].fields]], crs |-> "none"]
    [] kind = "rpc" -> [entries |-> [k \in DOMAIN d.doc |-> [id |-> d.doc[k].id, cam_type |-> "rpc", fields |-> d.doc[k].fields]], crs |-> "none"]
    [] kind = "ext" -> [entries |-> [k \in DOMAIN d.doc |-> [id |-> d.doc[k].filename, cam_type |-> "none", fields |-> d.doc[k].fields]], crs |-> d.world_crs]
    [] kind = "gcps" -> LET n == Names(d.doc)
                        IN [entries |-> [k \in DOMAIN n |-> LET mine == SelectSeq(d.doc, LAMBDA f : f.filename = n[k])
                                                            IN [id |-> n[k], cam_type |-> "none", fields |-> [g \in DOMAIN mine |-> mine[g].gcp]]], crs |-> "none"]

CONSTANTS Kinds, Params(_), Files, MaxSteps
VARIABLES kind, orig, mem, files, n
vars == <<kind, orig, mem, files, n>>
None == [doc |-> <<>>]
Init == /\ kind \in Kinds /\ orig \in Params(kind) /\ mem = orig /\ files = [f \in Files |-> None] /\ n = 0
Write(f) == /\ n < MaxSteps /\ n' = n + 1 /\ files' = [files EXCEPT ![f] = Encode(kind, mem)] /\ UNCHANGED <<kind, orig, mem>>
Read(f) == /\ n < MaxSteps /\ files[f] # None /\ n' = n + 1 /\ mem' = Decode(kind, files[f]) /\ UNCHANGED <<kind, orig, files>>
Next == \E f \in Files : Write(f) \/ Read(f)
Spec == Init /\ [][Next]_vars

SameParameters == mem = orig
SameContent == \A f \in Files : files[f] \in {None, Encode(kind, orig)}
=============================================================================
