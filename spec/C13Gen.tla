------------------------------- MODULE C13Gen -------------------------------
(* Interior and RPC parameter files: valid ones, and each way in which one can be invalid. *)
EXTENDS Gen

I == INSTANCE IntDoc WITH Docs <- {}, doc <- done, left <- done, given <- done, verdict <- done

\* values of fields; n varies them
Value(key, n) ==
  CASE key = "im_size" -> <<ToString(60 + n), "40">> [] key = "sensor_size" -> <<"30.5", ToString(20 + n)>>
    [] key = "focal_len" -> IF n % 2 = 0 THEN <<"25.25">> ELSE <<"25.5", "24.75">>
    [] key = "width" -> <<ToString(60 + n)>> [] key = "height" -> <<"40">>
    [] key = "focal" -> <<"0.85">> [] key = "focal_x" -> <<"0.85">> [] key = "focal_y" -> <<"0.875">>
    [] key \in {"cx", "c_x"} -> <<"0.0" \o ToString(1 + n)>> [] key \in {"cy", "c_y"} -> <<"-0.0" \o ToString(2 + n)>>
    [] key = "k1" -> <<"-0.0" \o ToString(3 + n)>> [] key = "k2" -> <<"0.01" \o ToString(n)>> [] key = "k3" -> <<"0.002" \o ToString(n)>> [] key = "k4" -> <<"-0.0015">>
    [] key = "k5" -> <<"0.0011">> [] key = "k6" -> <<"-0.0007">> [] key = "p1" -> <<"0.00" \o ToString(1 + n)>> [] key = "p2" -> <<"-0.00" \o ToString(2 + n)>>
    [] key = "s1" -> <<"0.0003">> [] key = "s2" -> <<"-0.0004">> [] key = "s3" -> <<"0.0005">> [] key = "s4" -> <<"-0.0006">> [] key = "tx" -> <<"0.01">> [] key = "ty" -> <<"-0.02">>
    [] OTHER -> <<"0.125">>
Fields(keys, n) == [i \in DOMAIN keys |-> [key |-> keys[i], val |-> Value(keys[i], n)]]
DistSeq(type) == CASE type = "brown" -> <<"k1", "k2", "p1", "p2", "k3">> [] type = "fisheye" -> <<"k1", "k2", "k3", "k4">>
                   [] type = "opencv" -> <<"k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4", "tx", "ty">> [] OTHER -> <<>>
\* the fields of a valid camera; s chooses a subset of the optional ones
Some(q, s) == LET n == Len(q) IN CASE s = 0 -> <<>> [] s = 1 -> q [] s = 2 -> SubSeq(q, 1, n \div 2) [] s = 3 -> SubSeq(q, 1 + (n \div 2), n) [] OTHER -> IF n = 0 THEN q ELSE <<q[1 + (s % n)]>>
OtyKeys(type, s) == <<"im_size", "focal_len">> \o (IF s % 2 = 1 THEN <<"sensor_size">> ELSE <<>>) \o Some(<<"cx", "cy">>, s % 5) \o Some(DistSeq(type), s)
OsfmKeys(type, s) == <<"width", "height">> \o (IF s % 2 = 1 THEN <<"focal_x", "focal_y">> ELSE <<"focal">>) \o Some(<<"c_x", "c_y">>, s % 5) \o Some(DistSeq(IF type = "fisheye" THEN "fisheye" ELSE "brown"), s)
Cam(layout, id, type, keys, n) == [id |-> id, as |-> IF I!Osfm(layout) /\ id = "v2 osfm" THEN "osfm" ELSE id, type |-> type, fields |-> Fields(keys, n)]

OtyTypes == <<"pinhole", "brown", "fisheye", "opencv">>
OsfmTypes == <<"perspective", "simple_radial", "radial", "brown", "fisheye">>
IdsOf == <<"cam 0", "Maker Model 1.0 60 40", "0815", "v2 osfm", "type">>
\* flat layouts have one camera without an ID
OtyLayouts == <<"oty", "flat", "legacy", "legacy-named", "legacy-multi">>
FlatId(layout) == CASE layout \in {"flat", "legacy"} -> "unknown" [] layout = "legacy-named" -> "DMC II"
IsFlat(layout) == layout \in {"flat", "legacy", "legacy-named"}
Doc(name, layout, cams, why) == [name |-> name, layout |-> layout, cams |-> cams, why |-> why]

Valids ==
  FlattenSeq([l \in 1..5 |-> FlattenSeq([t \in 1..4 |-> [s \in 1..8 |->
    LET layout == OtyLayouts[l]  type == OtyTypes[t]  k == OtyKeys(type, s - 1)
        one == Cam(layout, IF IsFlat(layout) THEN FlatId(layout) ELSE Pick(IdsOf, s + l), type, k, s)
        two == <<one, Cam(layout, "second", Pick(OtyTypes, t + s), OtyKeys(Pick(OtyTypes, t + s), s + 1), 9 - s)>>
    IN Doc("valid-" \o layout \o "-" \o type \o ToString(s), layout, IF IsFlat(layout) \/ s % 3 = 0 THEN <<one>> ELSE two, "")]])])
  \o FlattenSeq([l \in 1..2 |-> FlattenSeq([t \in 1..5 |-> [s \in 1..8 |->
    LET layout == <<"osfm", "reconstruction">>[l]  type == OsfmTypes[t]
        one == Cam(layout, Pick(IdsOf, s + t), type, OsfmKeys(type, s - 1), s)
        two == <<one, Cam(layout, "second", Pick(OsfmTypes, t + s), OsfmKeys(Pick(OsfmTypes, t + s), s + 1), 9 - s)>>
    IN Doc("valid-" \o layout \o "-" \o type \o ToString(s), layout, IF s % 3 = 0 THEN <<one>> ELSE two, "")]])])

\* invalid documents: one camera of a valid document is changed
Drop(cam, key) == [cam EXCEPT !.fields = SelectSeq(cam.fields, LAMBDA f : f.key # key)]
Add(cam, key, n) == [cam EXCEPT !.fields = Append(SelectSeq(cam.fields, LAMBDA f : f.key # key), [key |-> key, val |-> Value(key, n)])]
Set(cam, key, val) == [cam EXCEPT !.fields = [i \in DOMAIN cam.fields |-> IF cam.fields[i].key = key THEN [key |-> key, val |-> val] ELSE cam.fields[i]]]
BaseCam(layout, type, s) == IF I!Osfm(layout) THEN Cam(layout, "one", type, OsfmKeys(type, s), s)
                            ELSE Cam(layout, IF IsFlat(layout) THEN FlatId(layout) ELSE "one", type, OtyKeys(type, s), s)
Changed(layout, type, s, k) ==
  LET b == BaseCam(layout, type, s)
      osfm == I!Osfm(layout)
  IN CASE k = 1 -> Drop(b, IF osfm THEN "width" ELSE "im_size") [] k = 2 -> Drop(b, IF osfm THEN "height" ELSE "focal_len")
       [] k = 3 -> IF osfm THEN Drop(Drop(b, "focal"), "focal_x") ELSE Add(b, "focal", s)
       [] k = 4 -> IF osfm THEN (IF s % 2 = 1 THEN Drop(b, "focal_y") ELSE Add(b, "focal_x", s)) ELSE Add(b, "width", s)
       [] k = 5 -> Add(b, <<"k4", "s1", "tx", "p1", "k9">>[1 + (s % 5)], s)          \* another type's, unless the type has it
       [] k = 6 -> Add(b, <<"skew", "K1", "focal_length", "xyz", "gamma">>[1 + (s % 5)], s)
       [] k = 7 -> [b EXCEPT !.type = <<"rpc", "spherical", "dual", "none">>[1 + (s % 4)]]
       [] k = 8 -> Set(b, IF osfm THEN "width" ELSE "im_size", <<"abc">>)
       [] k = 9 -> Set(b, IF osfm THEN "height" ELSE "focal_len", IF s % 2 = 0 THEN <<"n/a">> ELSE <<"1", "2", "3">>)
       [] k = 10 -> Set(Add(Drop(b, "cx"), IF osfm THEN "c_x" ELSE "cx", s), IF osfm THEN "c_x" ELSE "cx", <<"abc">>)
       [] k = 11 -> IF osfm THEN Add(Add(Drop(b, "c_x"), "c_x", 0), "cx", 5) ELSE Add(b, "c_x", s)
       [] k = 12 -> IF osfm THEN Add(b, "focal_len", s) ELSE Set(b, "sensor_size", <<"30.5">>)
       [] k = 13 -> Add(b, "rpc", s)
Invalids == FlattenSeq([l \in 1..7 |-> FlattenSeq([z \in 1..5 |-> [k \in 1..13 |->
  LET s == z - 1
      layout == Append(Append(OtyLayouts, "osfm"), "reconstruction")[l]
      type == IF l > 5 THEN Pick(OsfmTypes, s + k) ELSE Pick(OtyTypes, s + k)
      cam == Changed(layout, type, s, k)
      other == BaseCam(layout, IF l > 5 THEN "brown" ELSE "pinhole", s)
      cams == IF IsFlat(layout) THEN <<cam>> ELSE IF k % 2 = 0 THEN <<[other EXCEPT !.id = "other", !.as = "other"], cam>> ELSE <<cam, [other EXCEPT !.id = "other", !.as = "other"]>>
  IN Doc("changed-" \o layout \o "-" \o type \o "-" \o ToString(k) \o ToString(s), layout, cams, "changed")]])])
\* values that are not usual
EdgeOf(key, e) ==
  CASE key = "im_size" -> <<<<"60", "60">>, <<"37", "2000">>, <<"40", "60">>, <<"12000", "9000">>>>[e]
    [] key = "sensor_size" -> <<<<"36", "24">>, <<"24.0", "36">>, <<"0.0302", "0.02">>, <<"30.5", "30.500001">>>>[e]
    [] key = "focal_len" -> <<<<"25">>, <<"0.85", "0.850001">>, <<"25", "25">>, <<"0.0252", "25.0e-3">>>>[e]
    [] key \in {"width", "height"} -> <<<<"60">>, <<"37">>, <<"40">>, <<"12000">>>>[e]
    [] key \in {"focal", "focal_x"} -> <<<<"1">>, <<"0.85">>, <<"0.85">>, <<"8.5e-1">>>>[e]
    [] key = "focal_y" -> <<<<"1">>, <<"0.850001">>, <<"0.85">>, <<"0.8500000001">>>>[e]
    [] OTHER -> <<<<"0">>, <<"1.0e-05">>, <<"-0.0">>, <<"0.30000000000000004">>>>[e]
Edges == FlattenSeq([l \in 1..7 |-> FlattenSeq([t \in 1..5 |-> [e \in 1..4 |->
  LET layout == Append(Append(OtyLayouts, "osfm"), "reconstruction")[l]
      type == IF l > 5 THEN OsfmTypes[t] ELSE Pick(OtyTypes, t)
      b == BaseCam(layout, type, 1)
      cam == [b EXCEPT !.fields = [i \in DOMAIN b.fields |-> [key |-> b.fields[i].key, val |-> EdgeOf(b.fields[i].key, e)]]]
  IN Doc("edge-" \o layout \o "-" \o type \o "-" \o ToString(t) \o ToString(e), layout, <<cam>>, "")]])])
\* IDs that are not usual
Names == LET cams(layout, a, b, s) == <<[Cam(layout, a, IF I!Osfm(layout) THEN "brown" ELSE "pinhole", IF I!Osfm(layout) THEN OsfmKeys("brown", s) ELSE OtyKeys("pinhole", s), s) EXCEPT !.as = a],
                                    [Cam(layout, b, IF I!Osfm(layout) THEN "fisheye" ELSE "brown", IF I!Osfm(layout) THEN OsfmKeys("fisheye", s) ELSE OtyKeys("brown", s + 1), s + 1) EXCEPT !.as = b]>>
         strip(cs, id, as) == [i \in DOMAIN cs |-> IF cs[i].id = id THEN [cs[i] EXCEPT !.as = as] ELSE cs[i]]
  IN << Doc("id-camera-first", "oty", cams("oty", "camera", "other", 1), "id"), Doc("id-camera-last", "oty", cams("oty", "other", "camera", 2), "id"),
        Doc("id-camera-alone", "oty", <<cams("oty", "camera", "other", 1)[1]>>, "id"),
        Doc("id-v2-same", "osfm", strip(cams("osfm", "v2 a", "a", 1), "v2 a", "a"), "id"), Doc("id-v2-differ", "osfm", strip(strip(cams("osfm", "v2 a", "v2 b", 1), "v2 a", "a"), "v2 b", "b"), "id"),
        Doc("id-v2-same-recon", "reconstruction", strip(cams("reconstruction", "a", "v2 a", 2), "v2 a", "a"), "id"),
        Doc("id-name", "oty", cams("oty", "name", "ortho", 3), "id"), Doc("id-cameras", "osfm", cams("osfm", "cameras", "shots", 3), "id") >>

\* RPC parameters
RpcKeys == <<"im_size", "height_off", "height_scale", "lat_off", "lat_scale", "long_off", "long_scale", "line_off", "line_scale", "samp_off", "samp_scale",
             "line_num_coeff", "line_den_coeff", "samp_num_coeff", "samp_den_coeff">>
RpcValue(key, n, int) ==
  LET k == CHOOSE i \in DOMAIN RpcKeys : RpcKeys[i] = key
  IN CASE key = "im_size" -> <<ToString(60 + n), "40">>
       [] key \in I!RpcPolynomials -> [i \in 1..20 |-> IF i = 1 /\ key \in {"line_den_coeff", "samp_den_coeff"} THEN (IF int THEN "1" ELSE "1.0") ELSE IF int /\ i > 10 THEN "0" ELSE "0.00" \o ToString(i + k + n)]
       [] OTHER -> IF int THEN <<ToString(20 + k + n)>> ELSE <<ToString(20 + k + n) \o ".25">>
RpcCam(id, n, int) == [id |-> id, as |-> id, type |-> "rpc", fields |-> [i \in DOMAIN RpcKeys |-> [key |-> RpcKeys[i], val |-> RpcValue(RpcKeys[i], n, int)]]]
Rpcs ==
  [n \in 1..6 |-> Doc("valid-rpc-" \o ToString(n), "rpc", LET a == RpcCam("im0.tif", n, n % 2 = 0)  b == RpcCam("im1", n + 1, n % 3 = 0) IN IF n % 3 = 1 THEN <<a>> ELSE IF n = 5 THEN <<Add(Add(a, "err_bias", 1), "err_rand", 1), b>> ELSE <<a, b>>, "")]
  \o [k \in 1..15 |-> Doc("rpc-without-" \o RpcKeys[k], "rpc", <<RpcCam("im0.tif", 0, FALSE), Drop(RpcCam("im1.tif", 1, FALSE), RpcKeys[k])>>, "changed")]
  \o [k \in 1..15 |-> Doc("rpc-text-" \o RpcKeys[k], "rpc", <<Set(RpcCam("im1.tif", 1, FALSE), RpcKeys[k], <<"abc">>)>>, "changed")]
  \o [k \in 1..4 |-> Doc("rpc-extra-" \o ToString(k), "rpc", <<Add(RpcCam("im0.tif", 1, FALSE), <<"skew", "line_offset", "focal_len", "sensor_size">>[k], k), RpcCam("im1.tif", 0, FALSE)>>, "changed")]
  \o [k \in 1..4 |-> LET key == <<"line_num_coeff", "line_den_coeff", "samp_num_coeff", "samp_den_coeff">>[k]
                     IN Doc("rpc-short-" \o key, "rpc", <<Set(RpcCam("im1.tif", 1, FALSE), key, SubSeq(RpcValue(key, 1, FALSE), 1, 19))>>, "changed")]
Ok(d) == d @@ [ok |-> I!Valid(d)]
GenCases == LET all == Valids \o Invalids \o Edges \o Names \o Rpcs IN [i \in DOMAIN all |-> Ok(all[i])]
=============================================================================
