--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line.  A request is a command with a list of images and     *)
(* options.  It means one job for each of the images, that does not depend *)
(* on the other images or on their order; or it is an error of the user.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* what an option that is not given means
Defaults == [resolution |-> <<>>, dem_band |-> 1, interp |-> "cubic", dem_interp |-> "cubic", per_band |-> FALSE, distort |-> TRUE, alpha |-> "1", lla |-> "EPSG:4979",
             radians |-> FALSE, write_mask |-> "none", dtype |-> "none", compress |-> "none", build_ovw |-> TRUE, creation |-> <<>>, driver |-> "gtiff", crs |-> "",
             refine |-> "none", method |-> "shift", pan_index |-> 1, ms_indexes |-> <<>>, weights |-> <<>>, overwrite |-> FALSE, export |-> FALSE]
\* options are [args, key, val]: the words, the parameter and the value that they stand for; the last one wins
Given(opts, key) == {i \in DOMAIN opts : opts[i].key = key}
LastOf(S) == CHOOSE i \in S : \A j \in S : j <= i
Job(opts) == [key \in DOMAIN Defaults |-> IF Given(opts, key) = {} THEN Defaults[key] ELSE opts[LastOf(Given(opts, key))].val]

OrthoCommands == {"frame", "exif", "odm", "rpc", "simple"}
\* The CRS of the ortho of an image: that of the options, or of the parameters, or of the image.  The parameters have a CRS, except for a CSV file
\* of projected positions without .prj file
ParamsCrs(req) == CASE req.cmd = "frame" -> req.params # "csv"
                    [] req.cmd = "odm" -> req.dem # "nocrs"
                    [] req.cmd = "simple" -> FALSE
                    [] OTHER -> TRUE
CrsOf(req, im) == IF Job(req.opts).crs # "" THEN "options" ELSE IF ParamsCrs(req) THEN "parameters" ELSE IF im.crs # "" THEN "image" ELSE ""

\* the errors of a request: with its options and files, ...
RequestErrors(req) == LET j == Job(req.opts) IN
  (IF req.badopt # <<>> THEN {"option"} ELSE {})
  \cup (IF req.missing # "" THEN {"missing file"} ELSE {})
  \cup (IF req.broken # "" THEN {"file"} ELSE {})
  \cup (IF req.outdir # "" THEN {"output directory"} ELSE {})
  \cup (IF req.cmd \in OrthoCommands /\ ~j.export
        THEN (IF req.dem \in {"none", "missing", "far", "nocrs"} THEN {"dem"} ELSE {}) \cup (IF j.dem_band \notin 1..2 THEN {"dem band"} ELSE {})
        ELSE {})
\* ... and with its images
ImageErrors(req, im) == LET j == Job(req.opts) IN
  (IF j.export /\ req.cmd = "frame" THEN {}
   ELSE (IF ~im.exists THEN {"source"} ELSE {}) \cup (IF ~im.known THEN {"parameters"} ELSE {}) \cup (IF CrsOf(req, im) = "" THEN {"crs"} ELSE {})
        \cup (IF j.refine # "none" /\ im.gcps < (IF j.method = "shift" THEN 1 ELSE 2) /\ (j.refine = "tags" \/ im.gcps > 0) THEN {"gcps"} ELSE {})
        \cup (IF im.out = "old" /\ ~j.overwrite /\ ~j.export THEN {"exists"} ELSE {}))
Names(req) == {i \in DOMAIN req.images : \E m \in DOMAIN req.images : m # i /\ req.images[m].stem = req.images[i].stem}
Errors(req) == RequestErrors(req) \cup UNION {ImageErrors(req, req.images[i]) : i \in DOMAIN req.images}
  \cup (IF ~Job(req.opts).export /\ Names(req) # {} THEN {"names"} ELSE {})
  \* exported exterior parameters name their CRS
  \cup (IF Job(req.opts).export /\ req.cmd = "frame" /\ Job(req.opts).crs = "" /\ ~ParamsCrs(req) THEN {"crs"} ELSE {})
  \cup (IF Job(req.opts).export /\ req.exported = "old" /\ ~Job(req.opts).overwrite THEN {"exists"} ELSE {})
ExitCode(req) == IF Errors(req) = {} THEN 0 ELSE 2
\* The outputs of the images: what the image alone would give for each of them; after an error, that or what was there.
\* outs[i] is one of "none", "old" (what was there before the run), "alone" and "other"
GoodOuts(req, outs) ==
  \A i \in DOMAIN req.images :
    IF Job(req.opts).export THEN outs[i] = req.images[i].out
    ELSE IF Errors(req) = {} THEN outs[i] = "alone" ELSE outs[i] = req.images[i].out \/ (outs[i] = "alone" /\ ImageErrors(req, req.images[i]) = {} /\ RequestErrors(req) = {})
=============================================================================
