------------------------------- MODULE C15Gen -------------------------------
(* Where the world CRS can come from; and positions and orientations of cameras all over the earth, in each description. *)
EXTENDS Gen, Place

Rule == INSTANCE CrsRule WITH Requests <- {}, req <- done, at <- done, crs <- done

UserCode == 32736
SideCode == 32735
Forms == <<"epsg", "wkt", "proj4", "object">>
\* names of CSV files (without the extension) and their extensions
Names == << <<"ext.param", ".csv">>, <<"ext", ".csv">>, <<"ext", "">>, <<"a.b/ext", "">>, <<"EXT", ".TXT">>, <<"a.b/ext.0.1", ".csv">> >>
Ways == <<"path", "str", "openfile", "path">>
CsvSeq == <<"csv-xyz-opk", "csv-xyz-rpy", "csv-lla-opk", "csv-lla-rpy">>
KindSeq == <<"none", "projected", "geographic", "nonsense">>

\* images near a place: latitude, longitude, altitude
Around(lat, lon, n) == [k \in 1..n |-> <<lat ++ (R(k - 1) ** "0.0004"), lon ++ <<"0", "0.0003", "0.004", "0.0041">>[k], R(200 + 10 * k)>>]
RuleImages == [k \in 1..3 |-> LET a == Around("-34.3", "20.83", 3)[k] IN [lla |-> <<RText(a[1]), RText(a[2]), RText(a[3])>>,
                  xyz |-> <<"300000", "6200000", "250">>, ang |-> <<"1.5", "-2", "40">>, t |-> <<"0", "0", "0">>]]
Rule1(source, u, s, l, h) ==
  [name |-> "rule-" \o source \o "-" \o u \o "-" \o s \o "-" \o l, kind |-> "rule", source |-> source, user |-> u, side |-> s, lla |-> l,
   form |-> Pick(Forms, Rnd(h, 4)), sideform |-> Pick(<<"epsg", "wkt", "proj4", "epsg-newline", "wkt-newline">>, Rnd(h + 5, 5)), way |-> Pick(Ways, Rnd(h + 9, 4)),
   file |-> Pick(Names, Rnd(h + 3, 6)), usercode |-> UserCode, sidecode |-> SideCode, images |-> RuleImages, proj |-> "auto"]
Rules ==
  FlattenSeq([c \in 1..4 |-> FlattenSeq([u \in 1..4 |-> FlattenSeq([s \in 1..4 |-> [l \in 1..4 |-> Rule1(CsvSeq[c], KindSeq[u], KindSeq[s], KindSeq[l], c * 64 + u * 16 + s * 4 + l)]])])])
  \o FlattenSeq([c \in 1..2 |-> FlattenSeq([u \in 1..4 |-> [l \in 1..4 |-> Rule1(<<"osfm", "exif">>[c], KindSeq[u], "none", KindSeq[l], 300 + c * 16 + u * 4 + l)]])])
  \o FlattenSeq([u \in 1..4 |-> [s \in 1..3 |-> Rule1("geojson", KindSeq[u], KindSeq[s + 1], "none", 400 + u * 4 + s)]])

\* places: zone boundaries, both hemispheres, the equator, the antimeridian
Lats == <<"-34.3", "47.25", "0", "-0.0001", "71.5", "-79.5", "12.125", "-0.5", "83.9", "60.5">>
Lons == <<"20.83", "27", "6", "-180", "179.9995", "-0.0001", "0", "-120.0007", "3.5", "149.25", "-66.1", "24", "9.0", "-177.3", "23.9988", "-42.0012">>
\* orientations, in degrees
Angs == << <<"0", "0", "0">>, <<"0", "0", "90">>, <<"1.5", "-2.25", "137.5">>, <<"-12", "25", "-60">>, <<"0", "90", "0">>, <<"0", "90", "90">>, <<"0", "90", "-90">>, <<"90", "0", "0">>,
           <<"180", "0", "30">>, <<"-90", "0", "45">>, <<"0", "-90", "10">>, <<"30", "89.999", "-170">>, <<"179.5", "-60", "-179">>, <<"0", "45", "180">>, <<"0", "0", "-180">>, <<"5", "85", "270">>,
           <<"0", "90", "33">>, <<"45", "90", "90">>, <<"0", "-90", "-90">>, <<"90", "0", "90">>, <<"-90", "0", "0">>, <<"0", "89.9999999", "90">> >>
\* the same as angle-axis vectors, in radians
Aas == << <<"3.141592653589793", "0", "0">>, <<"0", "0", "0">>, <<"2.221441469079183", "2.221441469079183", "0">>, <<"3.1", "0.02", "-0.03">>, <<"0", "1.5707963267948966", "0">>, <<"0", "-1.5707963267948966", "0">>,
          <<"1.5707963267948966", "0", "0">>, <<"1.2", "-1.3", "0.7">>, <<"-2.2", "2.1", "0.05">>, <<"1.2091995761561452", "1.2091995761561452", "1.2091995761561452">>, <<"0", "0", "-2.5">>,
          <<"0.5", "2.9", "-0.4">>, <<"2.2", "0.1", "2.2">>, <<"1.2091995761561452", "-1.2091995761561452", "1.2091995761561452">> >>
PoseSources == <<"csv-xyz-opk", "csv-xyz-rpy", "csv-lla-opk", "csv-lla-rpy", "osfm", "exif", "geojson">>
Needs(source) == source \in {"csv-xyz-opk", "csv-xyz-rpy", "csv-lla-opk", "geojson"}
\* projections: the zone of the place, its neighbours, and another transverse Mercator projection
Zoned(lat, lon, z, flip) == LET zone == 1 + ((Zone(lon) + z + 59) % 60)  s == (South(lat) # flip) IN [code |-> UtmCode(zone, s), p |-> UtmOf(zone, s)]
Local(lon) == [code |-> 0, p |-> [lon0 |-> R(RFloorInt(lon)) ++ "0.5", k0 |-> "1.0001", e0 |-> "1000", n0 |-> "-2000.5"]]
Pose(h) ==
  LET source == Pick(PoseSources, h)
      lat == Pick(Lats, Rnd(h + 1, 1000))  lon == Pick(Lons, Rnd(h + 2, 1000))
      n == 1 + Rnd(h + 3, 3)
      places == Around(lat, lon, n)
      given == Needs(source) \/ Rnd(h + 4, 3) = 0
      proj == IF given THEN Pick(<<Zoned(lat, lon, 0, FALSE), Zoned(lat, lon, 1, FALSE), Zoned(lat, lon, -1, FALSE), Zoned(lat, lon, 0, TRUE), Local(lon)>>, Rnd(h + 5, 5))
              ELSE LET m == IF source = "osfm" THEN places[1] ELSE MeanPlace(places) IN Zoned(m[1], m[2], 0, FALSE)
  IN [name |-> "pose-" \o ToString(h) \o "-" \o source, kind |-> "pose", source |-> source, user |-> IF given /\ source # "geojson" THEN "projected" ELSE "none",
      side |-> IF source = "geojson" THEN "projected" ELSE "none", lla |-> IF Rnd(h + 6, 3) = 0 THEN "geographic" ELSE "none",
      form |-> IF proj.code = 0 THEN "proj4" ELSE Pick(Forms, Rnd(h + 7, 4)), sideform |-> IF proj.code = 0 THEN "proj4" ELSE "epsg", way |-> Pick(Ways, Rnd(h + 8, 4)),
      file |-> Pick(SelectSeq(Names, LAMBDA nm : nm[2] # ""), Rnd(h + 11, 4)), usercode |-> proj.code, sidecode |-> proj.code, proj |-> [lon0 |-> RText(proj.p.lon0), k0 |-> proj.p.k0, e0 |-> proj.p.e0, n0 |-> proj.p.n0],
      images |-> [k \in 1..n |->
        LET xy == Project2(proj.p, places[k][1], places[k][2])
            a == Rnd(h * 3 + k, 4)
        IN [lla |-> <<RText(places[k][1]), RText(Wrap(places[k][2])), RText(places[k][3])>>, xyz |-> <<RText(xy[1]), RText(xy[2]), RText(places[k][3])>>,
            ang |-> IF source = "osfm" THEN Aas[1 + ((h + k) % Len(Aas))]
                    ELSE IF a < 2 THEN Angs[1 + ((h + k) % Len(Angs))] ELSE [i \in 1..3 |-> ToString(Rnd(h * 7 + k * 3 + i, 36000) - 18000) \o "e-2"],
            t |-> [i \in 1..3 |-> ToString(Rnd(h * 5 + k + i, 400) - 200) \o ".125"]]]]
Poses == [h \in 1..(IF Thorough THEN 2500 ELSE 500) |-> Pose(h + 10000 * Seed)]
\* on a central meridian, where grid north is north, orientations with the view along the x axis
Locked == [k \in 1..(2 * Len(Angs)) |->
  LET p == Pose(k)
      source == IF k % 2 = 0 THEN "csv-lla-rpy" ELSE "exif"
      lat == IF k % 3 = 0 THEN "-33.5" ELSE "52"
      pl == <<lat, "27", "200">>
      z == Zoned(lat, "27", 0, FALSE)
  IN [p EXCEPT !.name = "locked-" \o ToString(k), !.source = source, !.user = "none", !.side = "none", !.lla = "none", !.usercode = 0, !.sidecode = 0,
       !.proj = [lon0 |-> "27", k0 |-> z.p.k0, e0 |-> z.p.e0, n0 |-> z.p.n0],
       !.images = <<[lla |-> pl, xyz |-> <<"0", "0", "0">>, ang |-> Angs[1 + ((k \div 2) % Len(Angs))], t |-> <<"0", "0", "0">>]>>]]
GenCases == Rules \o Locked \o Poses
=============================================================================
