---------------------------- MODULE RoundTripMC -----------------------------
EXTENDS RoundTrip
Ids == {"a", "b", "c"}
Orders == {s \in UNION {[1..k -> Ids] : k \in 1..3} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
MCParams(k) == {[entries |-> [i \in DOMAIN s |-> [id |-> s[i], cam_type |-> IF k = "int" THEN t ELSE IF k = "rpc" THEN "rpc" ELSE "none",
                                                  fields |-> [j \in 1..m |-> <<s[i], j>>]]], crs |-> IF k = "ext" THEN c ELSE "none"] :
                s \in Orders, t \in {"pinhole", "brown"}, m \in 1..2, c \in {"EPSG:1", "EPSG:2"}}
=============================================================================
