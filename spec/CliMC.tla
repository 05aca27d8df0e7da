-------------------------------- MODULE CliMC --------------------------------
(***************************************************************************)
(* A run of a command as a state machine: images are taken one after the   *)
(* other, in the order of the request, and the run stops at the first that *)
(* is in error.  Checked over all requests of up to three images: the exit *)
(* code is that of Cli.tla, outputs are good at every step (so also when   *)
(* the run is interrupted), files are only replaced when asked to, and     *)
(* no image's output depends on the order.                                 *)
(***************************************************************************)
EXTENDS Cli
VARIABLES req, outs, k, exit

Image == [stem : {"a", "b"}, exists : BOOLEAN, known : BOOLEAN, crs : {"", "own"}, out : {"none", "old"}, gcps : {0, 1}]
Opt == {<<>>, <<[args |-> <<"-o">>, key |-> "overwrite", val |-> TRUE]>>, <<[args |-> <<"-c", "x">>, key |-> "crs", val |-> "x"]>>,
        <<[args |-> <<"-gr", "tags">>, key |-> "refine", val |-> "tags"], [args |-> <<"-o">>, key |-> "overwrite", val |-> TRUE]>>}
Sound(im) == im.exists /\ im.known
\* at most one image with trouble of its own, before or after a sound one
Plain == {im \in Image : Sound(im) /\ im.stem = "a" /\ im.gcps = 1}
Lists == {<<a, b>> : a \in Plain, b \in Image} \cup {<<b, a>> : a \in Plain, b \in Image}
Requests == [cmd : {"frame", "rpc"}, images : Lists, opts : Opt, params : {"csv", "prj"}, badopt : {<<>>}, missing : {""}, broken : {""}, outdir : {""}, dem : {"ok", "missing"}, exported : {"none"}]

Init == req \in Requests /\ outs = [i \in DOMAIN req.images |-> req.images[i].out] /\ k = 0 /\ exit = -1
Start == k = 0 /\ exit = -1 /\ IF RequestErrors(req) # {} \/ Names(req) # {} \/ (req.cmd = "rpc" /\ \E i \in DOMAIN req.images : ImageErrors(req, req.images[i]) \cap {"source", "parameters", "gcps"} # {})
                 THEN exit' = 2 /\ UNCHANGED <<k, outs, req>> ELSE k' = 1 /\ UNCHANGED <<exit, outs, req>>
Take == k \in DOMAIN req.images /\ exit = -1 /\
  IF ImageErrors(req, req.images[k]) # {} THEN exit' = 2 /\ UNCHANGED <<k, outs, req>>
  ELSE outs' = [outs EXCEPT ![k] = "alone"] /\ k' = k + 1 /\ UNCHANGED <<exit, req>>
End == k > Len(req.images) /\ exit = -1 /\ exit' = 0 /\ UNCHANGED <<k, outs, req>>
Next == Start \/ Take \/ End \/ (exit # -1 /\ UNCHANGED <<req, outs, k, exit>>)

ExitRight == exit # -1 => exit = ExitCode(req)
OutsGood == exit # -1 => GoodOuts(req, outs)
\* at every step, an output is what was there or what the image alone gives
NeverOther == \A i \in DOMAIN outs : outs[i] \in {req.images[i].out, "alone"}
OldKept == \A i \in DOMAIN outs : req.images[i].out = "old" /\ ~Job(req.opts).overwrite => outs[i] = "old"
\* the errors do not depend on the order of the images
Reversed(r) == [r EXCEPT !.images = [i \in DOMAIN @ |-> @[Len(@) + 1 - i]]]
OrderFree == ExitCode(req) = ExitCode(Reversed(req))
=============================================================================
