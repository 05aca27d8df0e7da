------------------------------- MODULE C24Gen -------------------------------
(* Control points and RPC models in image tags and files. *)
EXTENDS Gen, Tags

Lats == <<"-34.3", "47.25", "0", "-0.0001", "71.5", "-79.5">>
Lons == <<"20.83", "27", "-179.9995", "179.9995", "-0.0001", "149.25">>
\* a text value: none, empty, and others
Texts == <<"none", "gcp-1", "", "a b;c, d", "12", "gcp-1">>
Digits(h) == ToString(Rnd(h, 8999) + 1000)
Gcp1(h, k, crs) ==
  LET lat == Pick(Lats, h) ++ (R(Rnd(h * 3 + k, 900)) ** "0.00001")
      lon == Pick(Lons, h \div 3) ++ (R(Rnd(h * 5 + k, 900)) ** "0.00001")
      z == UtmOf(Zone(Pick(Lons, h \div 3)), South(Pick(Lats, h)))
      xy == IF crs = "utm" THEN Project2(z, lat, lon) ELSE IF crs = "meridian" THEN <<lon -- 10, lat>> ELSE <<lon, lat>>
  IN [ji |-> <<IF Rnd(h + k, 7) = 0 THEN "0" ELSE ToString(Rnd(h * 7 + k, 60)) \o "." \o Digits(h + k) \o "625", ToString(Rnd(h * 11 + k, 40) - 2) \o "." \o Digits(h * 2 + k)>>,
      lla |-> <<RText(lat), RText(Wrap(lon)), ToString(Rnd(h + 2 * k, 3000) - 100) \o "." \o Digits(h + 3 * k)>>, xy |-> <<RText(xy[1]), RText(xy[2])>>,
      id |-> Pick(Texts, Rnd(h + 9 * k, 6)), info |-> Pick(Texts, Rnd(h + 13 * k, 6))]
GcpCase(h) ==
  LET store == Pick(<<"vrt", "tiff", "geojson">>, h)
      crs == IF store = "geojson" THEN "wgs84-3d" ELSE Pick(IF store = "tiff" THEN <<"utm", "wgs84">> ELSE <<"utm", "wgs84", "wgs84-3d", "meridian">>, Rnd(h + 1, 12))
      n == 1 + Rnd(h + 2, 3)
      place == h * 37 + (1000 * Seed)
  IN [name |-> "gcps-" \o ToString(h), kind |-> "gcps", store |-> store, crs |-> crs, way |-> Pick(<<"path", "str", "dataset", "openfile">>, Rnd(h + 3, 4)),
      code |-> UtmCode(Zone(Pick(Lons, place \div 3)), South(Pick(Lats, place))), spoil |-> "none", bad |-> 0, mix |-> Rnd(h + 6, 2) = 0,
      images |-> [i \in 1..n |-> [name |-> Pick(<<"im1.tif", "a b.tif", "im1", "x.y.tif">>, i + h) \o (IF i > 1 THEN ToString(i) ELSE "") \o (IF store = "geojson" THEN "" ELSE IF store = "vrt" THEN ".vrt" ELSE ".tif"),
                                  gcps |-> [k \in 1..(IF store = "tiff" THEN 4 + Rnd(h + i, 3) ELSE 1 + Rnd(h + i, 6)) |-> Gcp1(place, k + 10 * i, crs)]]]]
Gcps == [h \in 1..(IF Thorough THEN 1500 ELSE 180) |-> GcpCase(h)]
\* files that are not valid, and images without GCPs
Spoils == <<"no-gcps", "no-ji", "ji-3", "ji-text", "no-filename", "filename-number", "coordinates-2", "coordinates-text", "line", "no-geometry", "not-features", "no-type", "nonsense", "list", "properties-null">>
SpoiltGcps == FlattenSeq([s \in DOMAIN Spoils |-> [k \in 1..3 |->
  LET c == GcpCase(IF s = 1 THEN 3 * k + (k % 2) ELSE 3 * k + 2 + 3 * s) IN [c EXCEPT !.name = "spoilt-" \o Spoils[s] \o ToString(k), !.spoil = Spoils[s], !.bad = 1 + (k % Len(c.images))]]])

RpcCoeff(h, k) == (IF Rnd(h + k, 2) = 0 THEN "-" ELSE "") \o ToString(Rnd(h * 3 + k, 9) + 1) \o "." \o Digits(h * 5 + k) \o Digits(h * 7 + k) \o Digits(h * 11 + k) \o "e-" \o ToString(1 + Rnd(h + 3 * k, 12))
Coeffs(h, den) == [k \in 1..20 |-> IF den /\ k = 1 THEN "1" ELSE IF Rnd(h + 7 * k, 6) = 0 THEN "0" ELSE RpcCoeff(h, k)]
RpcOf(h) ==
  [line_off |-> <<ToString(Rnd(h, 20000)) \o ".5">>, samp_off |-> <<ToString(Rnd(h + 1, 20000)) \o "." \o Digits(h)>>, lat_off |-> <<ToString(Rnd(h + 2, 160) - 80) \o "." \o Digits(h + 2)>>,
   long_off |-> <<ToString(Rnd(h + 3, 358) - 179) \o "." \o Digits(h + 3)>>, height_off |-> <<ToString(Rnd(h + 4, 3000) - 50)>>,
   line_scale |-> <<ToString(1 + Rnd(h + 5, 20000)) \o ".5">>, samp_scale |-> <<ToString(1 + Rnd(h + 6, 20000))>>, lat_scale |-> <<"0." \o Digits(h + 4)>>, long_scale |-> <<"0." \o Digits(h + 5)>>,
   height_scale |-> <<"501">>, line_num_coeff |-> Coeffs(h + 10, FALSE), line_den_coeff |-> Coeffs(h + 20, TRUE), samp_num_coeff |-> Coeffs(h + 30, FALSE), samp_den_coeff |-> Coeffs(h + 40, TRUE)]
RpcCase(h) ==
  LET n == 1 + Rnd(h + 2, 3)  store == Pick(<<"vrt", "tiff", "text", "rpb">>, h) IN
  [name |-> "rpc-" \o ToString(h), kind |-> "rpc", store |-> store, way |-> Pick(<<"path", "str", "dataset">>, Rnd(h + 3, 3)), spoil |-> "none", bad |-> 0,
   images |-> [i \in 1..n |-> [name |-> "im" \o ToString((i * 7 + h) % 10) \o (IF store = "vrt" THEN ".vrt" ELSE ".tif"), size |-> <<ToString(20 + Rnd(h + i, 40)), ToString(10 + Rnd(h * 3 + i, 40))>>, rpc |-> RpcOf(h * 31 + i + 5000 * Seed)]]]
Rpcs == [h \in 1..(IF Thorough THEN 600 ELSE 80) |-> RpcCase(h)]
SpoiltRpcs == [k \in 1..8 |-> LET c == RpcCase(k) IN [c EXCEPT !.name = "rpc-none" \o ToString(k), !.spoil = "no-rpc", !.bad = 1 + (k % Len(c.images))]]
\* images that are missing, or not images
Lost == [k \in 1..24 |-> LET c == IF k % 2 = 0 THEN RpcCase(k) ELSE GcpCase(3 * k + ((k \div 2) % 2)) IN
  [c EXCEPT !.name = "lost-" \o ToString(k), !.spoil = IF (k \div 2) % 3 = 0 THEN "corrupt" ELSE "missing", !.bad = 1 + ((k \div 4) % Len(c.images)), !.way = IF c.way = "dataset" THEN "path" ELSE c.way]]
GenCases == Gcps \o SpoiltGcps \o Rpcs \o SpoiltRpcs \o Lost
=============================================================================
