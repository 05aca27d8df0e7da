-------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* The files that calls create or replace.                                 *)
(*                                                                         *)
(* A slot is an output path.  Its content is "none" (no such file),        *)
(* "foreign" (a file that somebody else put there), or the call that       *)
(* produced it.  A call writes its slots all together, or changes nothing. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Slots == {"a", "b", "c0", "c1", "int", "ext", "rpc", "gcp"}

(* kinds of call, and what they write *)
Ops == {"ortho", "pan", "frame", "rpc", "write-int", "write-ext", "write-rpc", "write-gcp", "cli-ortho", "cli-batch", "cli-pan", "cli-frame", "cli-rpc"}
ImageOps == {"ortho", "pan", "cli-pan"}
SlotsOf(c) ==
  CASE c.op \in ImageOps -> {c.out}
    [] c.op \in {"frame", "cli-frame"} -> {"int", "ext"}
    \* models that were refined with GCPs are exported together with the GCPs
    [] c.op \in {"rpc", "cli-rpc"} -> IF c.var = 2 THEN {"rpc", "gcp"} ELSE {"rpc"}
    [] c.op = "write-int" -> {"int"} [] c.op = "write-ext" -> {"ext"} [] c.op = "write-rpc" -> {"rpc"} [] c.op = "write-gcp" -> {"gcp"}
    [] c.op = "cli-ortho" -> {"c0"} [] c.op = "cli-batch" -> {"c0", "c1"}

(* what can be wrong with a call *)
FaultsOf(op) ==
  CASE op = "ortho" -> {"interp", "dem-interp", "dtype", "compress", "driver", "jpeg-dtype", "missing-source", "missing-dem", "no-overlap", "dem-band", "no-exterior",
                        "closed-source", "geographic-crs", "out-mode"}
    [] op = "pan" -> {"interp", "dtype", "compress", "driver", "jpeg-dtype", "pan-index", "ms-index", "weights-count", "weights-negative", "no-weights", "missing-ms", "no-overlap",
                      "closed-pan", "out-mode"}
    [] op = "frame" -> {"no-crs", "missing-dir"}
    [] op = "rpc" -> {"missing-dir"}
    [] op \in {"write-int", "write-ext", "write-rpc", "write-gcp"} -> {"mode"}
    [] op \in {"cli-ortho", "cli-batch"} -> {"interp", "missing-source", "no-dem", "missing-dem", "dem-band", "bad-option", "no-camera", "missing-dir", "jpeg-dtype"}
    [] op = "cli-pan" -> {"pan-index", "ms-index", "weights-count", "missing-ms", "bad-option"}
    [] op = "cli-frame" -> {"no-crs", "missing-int", "missing-dir"}
    [] op = "cli-rpc" -> {"missing-source", "missing-dir"}

OutsOf(op) == IF op \in ImageOps THEN {"a", "b"} ELSE {"-"}
CallsOf(op) ==
  [op : {op}, out : OutsOf(op), ow : BOOLEAN, var : 1..2, fault : {"none"} \cup FaultsOf(op)]
Calls == UNION {CallsOf(op) : op \in Ops}

Exists(fs, c) == \E s \in SlotsOf(c) : fs[s] # "none"
Product(c, s) == c.op \o ToString(c.var) \o s

(* the allowed effects of a call: (result, new files) *)
Effects(fs, c) ==
  IF c.fault # "none" THEN {<<"error", fs>>}
  ELSE IF ~c.ow /\ Exists(fs, c) THEN
       IF c.op = "cli-batch"
       \* a batch stops at the first image whose ortho exists
       THEN {<<"exists", [s \in Slots |-> IF s \in done THEN Product(c, s) ELSE fs[s]]>> : done \in SUBSET {s \in SlotsOf(c) : fs[s] = "none"}}
       ELSE {<<"exists", fs>>}
  ELSE {<<"ok", [s \in Slots |-> IF s \in SlotsOf(c) THEN Product(c, s) ELSE fs[s]]>>}

VARIABLES fs, last, n
vars == <<fs, last, n>>
CONSTANT MaxSteps

Init == fs = [s \in Slots |-> "none"] /\ last = [kind |-> "init"] /\ n = 0
Call == \E c \in Calls :
          \E f \in Effects(fs, c) : fs' = f[2] /\ last' = [kind |-> "call", call |-> c, res |-> f[1]] /\ n' = n + 1
Put == \E s \in Slots : fs' = [fs EXCEPT ![s] = "foreign"] /\ last' = [kind |-> "put", slot |-> s] /\ n' = n + 1
Remove == \E s \in Slots : fs[s] # "none" /\ fs' = [fs EXCEPT ![s] = "none"] /\ last' = [kind |-> "rm", slot |-> s] /\ n' = n + 1
Next == n < MaxSteps /\ (Call \/ Put \/ Remove)
Spec == Init /\ [][Next]_vars

(* the property *)
Kept == [][last'.kind = "call" =>
            /\ \A s \in Slots : fs'[s] # fs[s] => fs[s] = "none" \/ last'.call.ow
            /\ last'.res = "error" => fs' = fs
            /\ last'.res = "ok" => \A s \in SlotsOf(last'.call) : fs'[s] = Product(last'.call, s)
            /\ last'.call.op # "cli-batch" => Cardinality({s \in SlotsOf(last'.call) : fs'[s] # fs[s]}) \in {0} \cup
                 {Cardinality({s \in SlotsOf(last'.call) : fs[s] # Product(last'.call, s)})}]_vars
=============================================================================
