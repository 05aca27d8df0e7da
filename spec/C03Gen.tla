------------------------------- MODULE C03Gen -------------------------------
(* Schedules: behaviours of Pipeline, as the order of the jobs' starts, computed results and ends.  Run with -simulate. *)
EXTENDS Pipeline, Json, IOUtils

CONSTANT Name

Emit == pc = "done" =>
  LET sel(e) == e.ev \in {"start", "computed", "stop"}
      evs == SelectSeq(log, sel)
  IN PrintT("VF@" \o ToJson([name |-> Name, kind |-> Kind, tiles |-> Tiles, stat_tiles |-> StatTiles, workers |-> Cardinality(Workers),
            bands |-> Bands, masked |-> Masked, ovw |-> Ovw,
            order |-> [k \in DOMAIN evs |-> <<evs[k].ev, evs[k].job[1], evs[k].job[2]>>]]))
=============================================================================
