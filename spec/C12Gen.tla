------------------------------- MODULE C12Gen -------------------------------
(* Parameters with unusual names and values, and ways to write and read them. *)
EXTENDS Gen

\* {u} stands for characters that are not ASCII, {long} for a long text (see the driver)
Texts == <<"im0.tif", "im 1.jpg", "0123", "1e5", "null", "yes", "a: b", "# c", "{u}.tif", "~", "- x", "{a}", "{long}", "it's \"it\"", "2020-01-01", "camera", "type", "x\ty", "0x1F", "=",
           "1.5", "%d", "dir.with.dots.tif", "[1, 2]", " padded ", "Off", "!!str", "&a", "*a", "|", "12:30:00", "name", "ortho", "features">>
Reals == <<"0.1", "-0.05", "1e-17", "0.30000000000000004", "12", "-3.0", "1e16", "2.5e-08", "0.0", "1234567.0000001">>
Num(k) == Pick(Reals, k)
F(key, val) == [key |-> key, val |-> val]
DistSeq(type) == CASE type = "brown" -> <<"k1", "k2", "p1", "p2", "k3">> [] type = "fisheye" -> <<"k1", "k2", "k3", "k4">>
                   [] type = "opencv" -> <<"k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4", "tx", "ty">> [] OTHER -> <<>>
Types == <<"pinhole", "brown", "fisheye", "opencv">>
\* small values, so that cameras can project
Small(k) == Pick(<<"0.01", "-0.0125", "1e-17", "0.0030000000000000004", "-2.5e-08", "0.0", "0">>, k)
IntEntry(id, k) ==
  LET type == Pick(Types, k)  d == DistSeq(type)
  IN [id |-> id, cam_type |-> type,
      fields |-> <<F("im_size", <<"60", "40">>), F("focal_len", IF k % 3 = 0 THEN <<"25.1", "24.7">> ELSE <<"25">>)>>
                 \o (IF k % 2 = 0 THEN <<F("sensor_size", <<"30.1", "20">>)>> ELSE <<>>)
                 \o (IF k % 5 # 0 THEN <<F("cx", <<Small(k)>>), F("cy", <<Small(k + 1)>>)>> ELSE <<>>)
                 \o (IF k % 4 = 3 THEN <<>> ELSE [i \in DOMAIN d |-> F(d[i], <<Small(k + i)>>)])]
ExtEntry(id, k, cam) == [id |-> id, cam_type |-> "none", camera |-> cam,
                         fields |-> <<F("xyz", <<"300000." \o ToString(k), IF k % 3 = 0 THEN "6200001" ELSE "6200000.30000000004", "200.5">>), F("opk", <<Small(k), Small(k + 2), "-3.1">>)>>]
RpcKeys == <<"height_off", "height_scale", "lat_off", "lat_scale", "long_off", "long_scale", "line_off", "line_scale", "samp_off", "samp_scale">>
RpcEntry(id, k) ==
  [id |-> id, cam_type |-> "rpc",
   fields |-> <<F("im_size", <<ToString(60 + k), "40">>)>>
              \o [i \in DOMAIN RpcKeys |-> F(RpcKeys[i], <<IF (i + k) % 4 = 0 THEN ToString(10 + i) ELSE ToString(10 + i) \o ".1000000000000001">>)]
              \o [i \in 1..4 |-> F(<<"line_num_coeff", "line_den_coeff", "samp_num_coeff", "samp_den_coeff">>[i], [j \in 1..20 |-> IF j = 1 THEN "1.0" ELSE IF (j + k) % 5 = 0 THEN "0" ELSE Small(i + j + k)])]
              \o (IF k % 2 = 0 THEN <<F("err_bias", <<"0.5">>), F("err_rand", <<"0.25">>)>> ELSE <<>>)]
GcpEntry(id, k) == [id |-> id, cam_type |-> "none",
  fields |-> [g \in 1..(1 + (k % 3)) |-> [ji |-> <<Num(k + g), IF g = 2 THEN "17" ELSE "12.25">>, xyz |-> <<"24.5000000000000" \o ToString(g), "-33.7", IF k % 2 = 0 THEN "210" ELSE "210.1">>,
                                         id |-> IF g = 3 THEN "none" ELSE Pick(Texts, k + g), info |-> IF k % 2 = 0 THEN "none" ELSE Pick(Texts, k + g + 5)]]]
Count == Len(Texts)
Ids(k, n) == [i \in 1..n |-> Texts[1 + ((k + (i * 7)) % Count)]]
Crss == <<"EPSG:32735", "EPSG:32735+5773", "lo25", "custom", "EPSG:3857", "towgs84", "ESRI:102562">>
Entries(kind, k) ==
  LET ids == Ids(k, 1 + (k % 4))
  IN [i \in DOMAIN ids |-> CASE kind = "int" -> IntEntry(ids[i], k + i) [] kind = "ext" -> ExtEntry(ids[i], k + i, IF i = 2 THEN "none" ELSE Texts[1 + ((k + (i * 11)) % Count)])
                             [] kind = "rpc" -> RpcEntry(ids[i], k + i) [] kind = "gcps" -> GcpEntry(ids[i], k + i)]
Writes == <<"path", "str", "uri", "openfile", "stringio", "handle", "replace">>
Reads == <<"path", "str", "openfile", "handle", "stringio">>
KindsOf == <<"int", "ext", "rpc", "gcps">>
Single(n) == FlattenSeq([t \in 1..4 |-> [k \in 1..n |->
  [name |-> KindsOf[t] \o "-" \o ToString(k), kind |-> KindsOf[t], entries |-> Entries(KindsOf[t], k), crs |-> IF t = 2 THEN Pick(Crss, k) ELSE "none",
   write |-> Pick(Writes, k), read |-> Pick(Reads, k \div 2), again |-> Pick(Writes, k + 3), source |-> "none", seed |-> k]]])
\* exports of collections, and of the command line, from each kind of source
Sources == <<"csv", "csv-rpy", "geojson", "osfm", "exif", "dict", "rpc-images", "rpc-file", "rpc-refined", "rpc-dict">>
Collections == FlattenSeq([s \in 1..10 |-> [w \in 1..4 |->
  [name |-> Sources[s] \o "-" \o ToString(w), kind |-> "collection", entries |-> <<>>, crs |-> "none", source |-> Sources[s],
   write |-> <<"api", "cli", "api", "api">>[w], read |-> "path", again |-> "api", seed |-> w]]])
GenCases == Single(IF Thorough THEN 170 ELSE 51) \o Collections
=============================================================================
