------------------------------ MODULE CrsRule -------------------------------
(***************************************************************************)
(* The world CRS of exterior parameters.                                   *)
(*                                                                         *)
(* A request says where CRSs can come from, and of which kind each is:     *)
(*   source   format of the exterior parameters                            *)
(*   user     the user's world CRS                                         *)
(*   side     a companion .prj file (CSV), or the CRS in the file (GeoJSON)*)
(*   lla      the user's geographic CRS                                    *)
(* where a kind is "none", "projected", "geographic" or "nonsense".        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Csv == {"csv-xyz-opk", "csv-xyz-rpy", "csv-lla-opk", "csv-lla-rpy"}
Sources == Csv \cup {"osfm", "exif", "geojson"}
Kinds == {"none", "projected", "geographic", "nonsense"}

HasXyz(s) == s \in {"csv-xyz-opk", "csv-xyz-rpy", "geojson"}
\* does the reader have to convert between the world and geographic coordinates, or their axes?
Converts(s) == s \notin {"csv-xyz-opk", "geojson"}
\* sources that locate the images without a world CRS
Locates(s) == s \in {"csv-lla-rpy", "osfm", "exif"}

(* the CRS, or the error *)
Resolve(r) ==
  IF r.source = "geojson" THEN (IF r.side = "projected" THEN "file" ELSE "ParamError")
  ELSE IF r.user \in {"geographic", "nonsense"} \/ r.lla \in {"projected", "nonsense"} THEN "CrsError"
  ELSE IF r.user = "projected" THEN "user"
  ELSE IF r.source \in {"csv-xyz-opk", "csv-xyz-rpy"} /\ r.side # "none" THEN (IF r.side = "projected" THEN "file" ELSE "ParamError")
  ELSE IF Locates(r.source) THEN "utm"
  ELSE IF Converts(r.source) THEN "CrsMissingError"
  ELSE "none"
Errors == {"ParamError", "CrsError", "CrsMissingError"}

(***************************************************************************)
(* The reader looks at the places a CRS can come from one after another,   *)
(* and afterwards the parameters can be exported, which needs a CRS.       *)
(***************************************************************************)
CONSTANT Requests
VARIABLES req, at, crs
vars == <<req, at, crs>>
Init == req \in Requests /\ at = "user" /\ crs = "none"
Fail(e) == crs' = e /\ at' = "failed" /\ UNCHANGED req
Go(to, c) == crs' = c /\ at' = to /\ UNCHANGED req
Given == /\ at = "user"
         /\ IF req.source = "geojson" THEN Go("side", "none")
            ELSE IF req.user \in {"geographic", "nonsense"} \/ req.lla \in {"projected", "nonsense"} THEN Fail("CrsError")
            ELSE IF req.user = "projected" THEN Go("read", "user") ELSE Go("side", "none")
Side == /\ at = "side"
        /\ IF ~HasXyz(req.source) \/ req.side = "none" THEN (IF req.source = "geojson" THEN Fail("ParamError") ELSE Go("place", "none"))
           ELSE IF req.side = "projected" THEN Go("read", "file") ELSE Fail("ParamError")
Place == /\ at = "place"
         /\ IF Locates(req.source) THEN Go("read", "utm") ELSE IF Converts(req.source) THEN Fail("CrsMissingError") ELSE Go("read", "none")
Export == /\ at = "read"
          /\ IF crs = "none" THEN Fail("CrsMissingError") ELSE Go("exported", crs)
Next == Given \/ Side \/ Place \/ Export
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AsResolved == at = "read" => crs = Resolve(req)
UserFirst == at = "read" /\ req.user # "none" /\ req.source # "geojson" => crs = "user"
NeverWrongKind == /\ at = "read" /\ crs = "user" => req.user = "projected"
                  /\ at = "read" /\ crs = "file" => req.side = "projected"
ConvertsWithCrs == at = "read" /\ Converts(req.source) => crs # "none"
ExportedWithCrs == at = "exported" => crs \in {"user", "file", "utm"}
Decides == <>(at \in {"exported", "failed"})
=============================================================================
