------------------------------- MODULE Factory ------------------------------
(***************************************************************************)
(* Collections of cameras.                                                 *)
(*                                                                         *)
(* A frame collection has exterior parameters for image keys, and interior *)
(* parameters for camera IDs; an RPC collection has a model for each image *)
(* key, which refinement corrects.  An image is looked up with its file    *)
(* name first, and then with its name without extension.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

KeyOf(keys, name) == IF name.name \in keys THEN name.name ELSE IF name.stem \in keys THEN name.stem ELSE ""

(* the (interior, pose) of an image, or an error.  exts: a sequence of [key, pose, cam]; ints: a sequence of camera IDs *)
FrameOf(exts, ints, name) ==
  LET keys == {exts[k].key : k \in DOMAIN exts}
      key == KeyOf(keys, name)
      e == CHOOSE k \in DOMAIN exts : exts[k].key = key
      i == {k \in DOMAIN ints : ints[k] = exts[e].cam}
  IN IF key = "" THEN <<0, 0>>
     ELSE IF exts[e].cam # "" THEN (IF i = {} THEN <<0, 0>> ELSE <<CHOOSE k \in i : TRUE, exts[e].pose>>)
     ELSE IF Len(ints) = 1 THEN <<1, exts[e].pose>>
     ELSE <<0, 0>>

(* refinement.  corr: the correction (0: none) of each model; gcps: a sequence of [key, corr] *)
GcpOf(gcps, key) ==
  LET keys == {gcps[k].key : k \in DOMAIN gcps}
      g == KeyOf(keys, key)
  IN IF g = "" THEN 0 ELSE gcps[CHOOSE k \in DOMAIN gcps : gcps[k].key = g].corr
\* GCPs that can not refine a model (too few): the whole refinement fails
Useless == 99
Fails(keys, gcps) == \E k \in DOMAIN keys : GcpOf(gcps, keys[k]) = Useless
Refined(corr, keys, gcps) == IF Fails(keys, gcps) THEN corr ELSE [k \in DOMAIN corr |-> LET c == GcpOf(gcps, keys[k]) IN IF c # 0 THEN c ELSE corr[k]]

(***************************************************************************)
(* The collections as the code has them: cameras are made when they are    *)
(* first looked up, and kept.  A frame camera is kept for each interior,   *)
(* an RPC camera for each name that was looked up.                         *)
(***************************************************************************)
CONSTANTS Names,         \* set of [name, stem]
          RpcKeys,       \* sequence of [name, stem] of keys
          GcpSets,       \* set of sequences of [key, corr]
          MaxSteps
VARIABLES corr, cache, given, n
vars == <<corr, cache, given, n>>

Init == corr = [k \in DOMAIN RpcKeys |-> 0] /\ cache = {} /\ given = <<>> /\ n = 0
Index(name) == LET key == KeyOf({RpcKeys[k].name : k \in DOMAIN RpcKeys}, name)
               IN IF key = "" THEN 0 ELSE CHOOSE k \in DOMAIN RpcKeys : RpcKeys[k].name = key
Get(name) ==
  /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED corr
  /\ IF Index(name) = 0 THEN given' = <<name, "error">> /\ UNCHANGED cache
     ELSE LET hit == {c \in cache : c.name = name.name}
              cam == IF hit # {} THEN (CHOOSE c \in hit : TRUE).cam ELSE <<Index(name), corr[Index(name)]>>
          IN given' = <<name, cam>> /\ cache' = cache \cup {[name |-> name.name, cam |-> cam]}
Refine(g) ==
  /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED given
  /\ corr' = Refined(corr, RpcKeys, g)
  /\ cache' = IF ~Fails(RpcKeys, g) /\ \E k \in DOMAIN RpcKeys : GcpOf(g, RpcKeys[k]) # 0 THEN {} ELSE cache
Next == (\E m \in Names : Get(m)) \/ (\E g \in GcpSets : Refine(g))
Spec == Init /\ [][Next]_vars

(* a look-up gives the model of the image as it is now *)
Current == [][given' # given => given'[2] = (IF Index(given'[1]) = 0 THEN "error" ELSE <<Index(given'[1]), corr[Index(given'[1])]>>)]_vars
KeptIsCurrent == \A c \in cache : c.cam = <<c.cam[1], corr[c.cam[1]]>>
=============================================================================
