------------------------------- MODULE C11Gen -------------------------------
(* Collections of images and histories of look-ups, refinements, exports and changes of the cameras that look-ups returned. *)
EXTENDS Gen

F == INSTANCE Factory WITH Names <- {}, RpcKeys <- <<>>, GcpSets <- {}, MaxSteps <- 0, corr <- done, cache <- done, given <- done, n <- done

N(a, b) == [name |-> a, stem |-> b]
NameSeq == << N("im0.tif", "im0"), N("im0.jpg", "im0"), N("im0", "im0"), N("im1.tif", "im1"), N("im1", "im1"), N("a.b.tif", "a.b"), N("a.b", "a"), N("IM0.tif", "IM0"), N("none.tif", "none") >>
KeySeq == << N("im0.tif", "im0"), N("im0", "im0"), N("im1.tif", "im1"), N("im1", "im1"), N("a.b.tif", "a.b"), N("a.b", "a"), N("a", "a"), N("im0.jpg", "im0"), N("x y.tif", "x y") >>
Forms == <<"str", "path", "uri", "openfile", "dataset", "rel">>

\* n different keys
Keys(h, m) == LET s == Rnd(h, 9) IN [k \in 1..m |-> KeySeq[1 + ((s + (k - 1) * (1 + (h % 2) * 3)) % 9)]]
CamIds == <<"cam 0", "cam 1", "cam 2", "maker model 5.0">>
Ints(h) == SubSeq(CamIds, 1, 1 + Rnd(h + 3, 4))
Exts(h) ==
  LET ks == Keys(h, 1 + Rnd(h + 1, 6)) IN
  [k \in 1..Len(ks) |-> [key |-> ks[k].name, pose |-> k,
     cam |-> IF Len(Ints(h)) = 1 /\ Rnd(h + k, 3) # 0 THEN ""
             ELSE IF Rnd(h + 5 * k, 9) = 0 THEN "" ELSE IF Rnd(h + 5 * k, 9) = 1 THEN "no such camera" ELSE Pick(Ints(h), Rnd(h + 7 * k, 99))]]
\* names of which there is a key are looked up more often
NameOf(keys, q) == IF Rnd(q, 4) # 0 THEN Pick(keys, Rnd(q + 1, 99)) ELSE Pick(NameSeq, Rnd(q + 1, 99))
FrameStep(h, k, keys) ==
  LET q == 61 * h + 19 * k  r == Rnd(q, 10)
  IN IF r < 7 THEN [kind |-> "get", name |-> NameOf(keys, q + 1), form |-> Pick(Forms, Rnd(q + 5, 99))]
     ELSE IF r < 9 THEN [kind |-> "tamper", which |-> Rnd(q + 2, 50), how |-> Pick(<<"update", "alpha", "distort", "read">>, Rnd(q + 3, 99))]
     ELSE [kind |-> "export"]
FrameCase(h) ==
  LET exts == Exts(h)
      keys == [k \in 1..Len(exts) |-> CHOOSE x \in Range(KeySeq) : x.name = exts[k].key]
  IN [name |-> "frame-" \o ToString(h), kind |-> "frame", exts |-> exts, ints |-> Ints(h), from |-> Pick(<<"dict", "dict", "csv", "geojson">>, h),
      distort |-> Rnd(h + 9, 3) # 0, steps |-> [k \in 1..16 |-> FrameStep(h, k, keys)]]

\* now and then there are too few GCPs: none (the image keeps its model), or one for shift-drift (the refinement fails)
Gcps(h, k, keys, method) ==
  LET q == 43 * h + 7 * k
      ks == [j \in 1..(1 + Rnd(q, 4)) |-> Pick(keys, Rnd(q + j, 99))]
      ns == SetToSeq({IF Rnd(q + 31, 2) = 0 THEN ks[j].name ELSE ks[j].stem : j \in DOMAIN ks})
  IN [j \in 1..Len(ns) |-> [key |-> ns[j], corr |-> IF Rnd(q + 70 + j, 9) = 0 THEN (IF method = "shift" THEN 0 ELSE F!Useless) ELSE 1 + Rnd(q + 50 + j, 4)]]
RpcStep(h, k, keys) ==
  LET q == 61 * h + 19 * k  r == Rnd(q, 10)
  IN IF r < 6 THEN [kind |-> "get", name |-> NameOf(keys, q + 1), form |-> Pick(Forms, Rnd(q + 5, 99))]
     ELSE IF r < 9 THEN LET m == Pick(<<"shift", "shift-drift">>, Rnd(q + 3, 2)) IN [kind |-> "refine", gcps |-> Gcps(h, k, keys, m), method |-> m, file |-> Rnd(q + 4, 3) = 0]
     ELSE [kind |-> "export"]
RpcCase(h) ==
  LET keys == Keys(h, 1 + Rnd(h + 1, 6))
      steps == [k \in 1..16 |-> RpcStep(h, k, keys)]
      none == [k \in DOMAIN keys |-> 0]
      st[k \in 0..16] == IF k = 0 THEN none ELSE LET s == st[k-1] IN IF steps[k].kind = "refine" THEN F!Refined(s, keys, steps[k].gcps) ELSE s
  IN [name |-> "rpc-" \o ToString(h), kind |-> "rpc", keys |-> keys, from |-> Pick(<<"dict", "yaml", "dict">>, h), crs |-> Rnd(h + 9, 3) = 0,
      steps |-> [k \in 1..16 |-> steps[k] @@ [corr |-> st[k], fails |-> steps[k].kind = "refine" /\ F!Fails(keys, steps[k].gcps)]]]
GenCases ==
  [h \in 1..(IF Thorough THEN 500 ELSE 60) |-> FrameCase(h)] \o [h \in 1..(IF Thorough THEN 500 ELSE 60) |-> RpcCase(h)]
=============================================================================
