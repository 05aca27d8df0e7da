------------------------------- MODULE Handles ------------------------------
(***************************************************************************)
(* The files that calls use, and who opens and closes them.                *)
(*                                                                         *)
(* The caller has a pool of handles.  A call names one for each of its     *)
(* roles.  What the library opens itself (from paths and fsspec OpenFile   *)
(* objects) it closes before it returns, whether or not the call succeeds; *)
(* what the caller has opened stays as it is.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* kinds of handle: rasters, text files, and outputs of both *)
Paths == {"path", "str", "uri"}
KindsOf(type) ==
  CASE type = "raster" -> Paths \cup {"openfile", "dataset", "dataset-r+", "dataset-w", "openfile-wb", "openfile-rt"}
    [] type = "text" -> Paths \cup {"openfile", "fileobj", "stringio", "openfile-wt", "openfile-rb", "fileobj-rb", "fileobj-wt"}
    [] type = "out-raster" -> Paths \cup {"openfile", "openfile-rb", "openfile-wt"}
    [] type = "out-text" -> Paths \cup {"openfile", "fileobj", "stringio", "openfile-rt", "openfile-wb", "fileobj-rt", "fileobj-wb"}
Closable(kind) == kind \in {"dataset", "dataset-r+", "dataset-w", "fileobj", "stringio", "fileobj-rb", "fileobj-wt", "fileobj-rt", "fileobj-wb"}
RightMode(kind) == kind \in Paths \cup {"openfile", "dataset", "dataset-r+", "fileobj", "stringio"}
Usable(kind, isopen) == RightMode(kind) /\ (Closable(kind) => isopen)
(* the library opens these itself *)
OwnOpens(kind) == kind \in Paths \cup {"openfile"}

(* operations: the files of their roles, and the types of these *)
Ops == <<"ortho", "pan", "camera-read", "exif-int", "exif-ext", "image-rpc", "image-gcps", "frame-images", "rpc-images", "refine",
         "int", "osfm-int", "csv", "osfm-ext", "oty-ext", "rpc", "gcps", "frame", "write-int", "write-ext", "write-rpc", "write-gcps">>
RolesOf(op) ==
  CASE op = "ortho" -> <<"src", "dem", "ortho">> [] op = "pan" -> <<"pan", "ms", "sharp">> [] op = "camera-read" -> <<"src">>
    [] op \in {"exif-int", "exif-ext", "frame-images"} -> <<"exif">> [] op \in {"image-rpc", "image-gcps", "rpc-images", "refine"} -> <<"rpcim">>
    [] op = "int" -> <<"int">> [] op \in {"osfm-int", "osfm-ext"} -> <<"osfm">> [] op = "csv" -> <<"csv">> [] op = "oty-ext" -> <<"ext">>
    [] op = "rpc" -> <<"rpc">> [] op = "gcps" -> <<"gcp">> [] op = "frame" -> <<"int", "ext">>
    [] op = "write-int" -> <<"out-int">> [] op = "write-ext" -> <<"out-ext">> [] op = "write-rpc" -> <<"out-rpc">> [] op = "write-gcps" -> <<"out-gcp">>
TypeOf(role) ==
  CASE role \in {"src", "dem", "pan", "ms", "exif", "rpcim"} -> "raster"
    [] role \in {"int", "osfm", "csv", "ext", "rpc", "gcp"} -> "text"
    [] role \in {"ortho", "sharp"} -> "out-raster"
    [] OTHER -> "out-text"
(* faults that show up while the files are open: bad content in the file of the first role, or a bad argument *)
FaultsOf(op) ==
  {"none"} \cup (IF TypeOf(RolesOf(op)[1]) \in {"raster", "text"} THEN {"content"} ELSE {})
  \cup (IF op \in {"ortho", "pan", "write-ext"} THEN {"argument"} ELSE {}) \cup (IF op \in {"ortho", "pan"} THEN {"worker"} ELSE {})

CONSTANTS MaxSteps, ModelOps, ModelKinds
VARIABLES pool, own, pc, call, pos, n
vars == <<pool, own, pc, call, pos, n>>

Roles == UNION {{RolesOf(op)[k] : k \in DOMAIN RolesOf(op)} : op \in ModelOps}
Handles == {h \in Roles \X ModelKinds : h[2] \in KindsOf(TypeOf(h[1]))}
ArgsOf(op) == {a \in [1..Len(RolesOf(op)) -> ModelKinds] : \A k \in DOMAIN a : a[k] \in KindsOf(TypeOf(RolesOf(op)[k]))}

Init == pool = [h \in Handles |-> "open"] /\ own = {} /\ pc = "idle" /\ call = [op |-> "-"] /\ pos = 0 /\ n = 0
Toggle(h) == /\ pc = "idle" /\ n < MaxSteps /\ Closable(h[2])
             /\ pool' = [pool EXCEPT ![h] = IF @ = "open" THEN "closed" ELSE "open"] /\ n' = n + 1
             /\ UNCHANGED <<own, pc, call, pos>>
Begin == /\ pc = "idle" /\ n < MaxSteps
         /\ \E op \in ModelOps : \E a \in ArgsOf(op), f \in FaultsOf(op) : call' = [op |-> op, args |-> a, fault |-> f]
         /\ pc' = "opening" /\ pos' = 1 /\ n' = n + 1 /\ UNCHANGED <<pool, own>>
Handle(k) == <<RolesOf(call.op)[k], call.args[k]>>
Open == /\ pc = "opening" /\ UNCHANGED <<pool, call, n>>
        /\ IF pos > Len(call.args) THEN pc' = "working" /\ UNCHANGED <<own, pos>>
           ELSE IF ~Usable(Handle(pos)[2], pool[Handle(pos)] = "open") THEN pc' = "failing" /\ UNCHANGED <<own, pos>>
           ELSE /\ own' = IF OwnOpens(Handle(pos)[2]) THEN own \cup {Handle(pos)} ELSE own
                /\ pos' = pos + 1
                /\ \/ pc' = pc
                   \/ call.fault # "none" /\ pc' = "failing"
Work == /\ pc = "working" /\ pc' = (IF call.fault = "none" THEN "done" ELSE "failing") /\ UNCHANGED <<pool, own, call, pos, n>>
Unwind == /\ pc \in {"done", "failing"} /\ own # {} /\ \E h \in own : own' = own \ {h}
          /\ UNCHANGED <<pool, pc, call, pos, n>>
Return == /\ pc \in {"done", "failing"} /\ own = {} /\ pc' = "idle" /\ UNCHANGED <<pool, own, call, pos, n>>
Next == (\E h \in Handles : Toggle(h)) \/ Begin \/ Open \/ Work \/ Unwind \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Open \/ Work \/ Unwind \/ Return)

NothingLeftOpen == pc = "idle" => own = {}
OnlyOwnFiles == \A h \in own : OwnOpens(h[2])
CallerOwnsPool == [][pc # "idle" => pool' = pool]_vars
OnlyUsable == pc = "done" => \A k \in DOMAIN call.args : Usable(call.args[k], pool[Handle(k)] = "open")
Returns == pc # "idle" ~> pc = "idle"
=============================================================================
