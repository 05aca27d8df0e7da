------------------------------- MODULE C02Gen -------------------------------
EXTENDS Gen, OrthoCases

CamAt(t, i, d, p, s) == Frame(FrameTypes[t], Interiors[i], Pick(Dists(FrameTypes[t]), d), ScenePoses[p], Settings[s])
Dem(cam, off, hole) == DemFor(cam, "plane", "0.06", "-0.04", <<"5", "4">>, 80, 100, off, hole)
Flat(cam, off, hole) == DemFor(cam, "plane", "0", "0", <<"5", "4">>, 80, 100, off, hole)

(* coverage: what part of the footprint the DEM covers *)
Sc(name, cam, dem, res, cover, opts) == FrameScene(name, cam, dem, res, [cover |-> cover] @@ opts)

Full == FlattenSeq([t \in 1..4 |-> FlattenSeq([s \in 1..3 |-> [p \in 1..5 |->
    LET cam == CamAt(t, 1 + ((s + p + t) % 4), s + p, p, s) IN
    Sc("full", cam, Dem(cam, <<"2.5", "-1">>, <<>>), Pick(<< <<"2", "3">>, <<"3.5", "2.5">>, <<"1.5", "1.5">> >>, s + p), "full",
       [interp |-> Pick(<<"nearest", "cubic", "bilinear">>, s + p + t), tile |-> Pick(<<16, 32>>, p)])]])])
(* automatic resolution *)
Auto == [n \in 1..10 |-> LET cam == CamAt(1 + (n % 4), 1 + (n % 4), n, 1 + (n % 5), 1 + (n % 2)) IN
    Sc("auto", cam, Flat(cam, <<"0", "0">>, <<>>), <<>>, "full", [mask |-> n % 3 = 0])]
(* the DEM ends inside the footprint, on each side *)
Shifts == << <<"200", "0">>, <<"-190", "3">>, <<"4", "210">>, <<"-3", "-205">>, <<"190", "195">> >>
Partial == [n \in 1..10 |-> LET cam == CamAt(1 + (n % 4), 1 + (n % 4), n, 1 + (n % 5), 1) IN
    Sc("partial", cam, (IF n % 2 = 0 THEN Flat(cam, Pick(Shifts, n), <<>>) ELSE Dem(cam, Pick(Shifts, n), <<>>)), <<"2", "2.5">>, "partial",
       [interp |-> Pick(<<"nearest", "cubic", "bilinear">>, n)])]
(* a hole in the DEM, as NaN or another nodata value *)
Holes == [n \in 1..8 |-> LET cam == CamAt(1 + (n % 4), 1 + (n % 4), n, 1 + (n % 5), 1) IN
    Sc("hole", cam, [Flat(cam, <<"0", "0">>, <<36, 44, 7, 9>>) EXCEPT !.nodata = Pick(<<"nan", "-32768", "0">>, n)], <<"2", "2">>, "partial",
       [dem_interp |-> Pick(<<"nearest", "bilinear", "cubic">>, n)])]
(* a hole well outside the footprint changes nothing *)
FarHoles == [n \in 1..4 |-> LET cam == CamAt(1 + (n % 4), 1 + (n % 4), n, 1, 1) IN
    Sc("far-hole", cam, [Flat(cam, <<"0", "0">>, Pick(<< <<0, 0, 6, 100>>, <<0, 92, 80, 8>>, <<74, 0, 6, 100>>, <<0, 0, 80, 7>> >>, n))
        EXCEPT !.nodata = Pick(<<"nan", "-32768">>, n)], <<"2", "2">>, "full", [x |-> 0])]
(* nothing covered *)
None == [n \in 1..8 |-> LET cam == CamAt(1 + (n % 4), 1 + (n % 4), n, 1 + (n % 5), 1) IN
    Sc("none", cam, IF n <= 4 THEN Flat(cam, Pick(<< <<"3000", "0">>, <<"-3000", "0">>, <<"0", "3000">>, <<"10", "-3000">> >>, n), <<>>)
       ELSE IF n <= 6 THEN [Flat(cam, <<"0", "0">>, <<0, 0, 80, 100>>) EXCEPT !.nodata = Pick(<<"nan", "-32768">>, n)]
       ELSE [Flat(cam, <<"0", "0">>, <<12, 6, 60, 90>>) EXCEPT !.nodata = Pick(<<"nan", "-32768">>, n)],
       <<"2", "2">>, "none", [x |-> 0])]
(* DEM on the ortho grid, and with one band among others *)
Grid == [n \in 1..8 |-> LET cam == CamAt(1 + (n % 4), 1 + (n % 4), n, 1 + (n % 5), 1) IN
    Sc("grid", cam, DemFor(cam, "plane", "0.05", "0.03", <<"3", "3">>, 130, 130, <<"1", "2">>, <<>>), <<"3", "3">>, "full", [dem_band |-> Pick(<<1, 2>>, n)])]
(* terrain far outside the footprint does not matter: mountain, pit or garbage there *)
Far == [n \in 1..12 |-> LET cam == CamAt(1 + (n % 4), 1 + (n % 4), n, 1 + (n % 2), 1) IN
    Sc("far-terrain", cam, Flat(cam, <<"0", "0">>, <<>>), IF n > 6 THEN <<"5", "4">> ELSE <<"2", "2">>, "full",
       [far |-> Pick(<<"mountain", "pit", "invalid", "peak">>, n)])]
GeoDem(crs, lon, lat, z0) == [kind |-> "plane", z0 |-> z0, ax |-> "0", ay |-> "0", cx |-> lon, cy |-> lat,
   x0 |-> RText(R(lon) -- "0.0040"), y0 |-> RText(R(lat) ++ "0.0036"), rx |-> "0.0001", ry |-> "0.00008", nx |-> 80, ny |-> 90,
   hole |-> <<>>, crs |-> crs, dtype |-> "float32", nodata |-> "nan"]
GeoPose == [xyz |-> <<"260368.31", "6251457.375", "900">>, opk |-> <<"4", "-6", "25">>]
Crss == [n \in 1..4 |->
    LET cam == Frame("pinhole", Interiors[n], NoDist, GeoPose, Settings[1]) IN
    Sc("crs", cam, GeoDem(<<"EPSG:4326", "EPSG:4979", "EPSG:4326+5773", "EPSG:4326">>[n], "24.41", "-33.85", "800"), <<"2", "2.5">>, "full",
      [world |-> <<"EPSG:32735", "EPSG:32735+5773", "+proj=utm +zone=35 +south +datum=WGS84 +vunits=m +type=crs", "EPSG:32735">>[n],
       slack |-> "0.5"])]
RpcScenes == FlattenSeq([r \in 1..2 |-> [k \in 1..4 |->
    [RpcScene("rpc", r, RpcDem(r, "plane", "1000", "-2000", <<"0.0004", "0.0005">>, 50, 40, IF k = 4 THEN <<"0.010", "0">> ELSE <<"0.0001", "0">>, <<>>),
      IF k = 3 THEN <<"18", "21">> ELSE <<"0.00025", "0.0002">>,
      IF k = 3 THEN RpcCrss[r][2] ELSE IF k = 2 THEN "EPSG:4979" ELSE "EPSG:4326",
      [interp |-> Pick(<<"bilinear", "cubic", "nearest">>, k + r), slack |-> "1", cover |-> IF k = 4 THEN "partial" ELSE "full"]) EXCEPT !.bands = 1]]])
(* a camera that sees the horizon, a resolution coarser than the ground, a band the DEM does not have *)
Wrong == [n \in 1..6 |-> LET cam == [CamAt(1 + (n % 4), 1, n, 1, 1) EXCEPT !.opk = IF n <= 2 THEN <<"85", "0", "0">> ELSE <<"0", "0", "0">>] IN
    Sc("wrong", cam, [Flat(cam, <<"0", "0">>, <<>>) EXCEPT !.x0 = RText(R(cam.xyz[1]) -- 200), !.y0 = RText(R(cam.xyz[2]) ++ 200), !.z0 = RText(R(cam.xyz[3]) -- 90)],
       IF n \in {3, 4} THEN <<"2000", "2000">> ELSE <<"2", "2">>, "none", [dem_band |-> 1, ask_band |-> IF n = 5 THEN 2 ELSE IF n = 6 THEN 0 ELSE 1])]

(* oblique images of steep ground: the parts of the footprint on high and on low ground are far apart *)
Narrow == [size |-> <<50, 36>>, focal |-> <<"2.2", "2.2">>, sensor |-> <<>>, c |-> <<"0", "0">>, scalar |-> TRUE]
ObliquePoses == << <<"0", "-33", "0">>, <<"31", "0", "20">>, <<"-24", "22", "75">>, <<"0", "34", "-130">> >>
Slopes == << <<"0.2", "0">>, <<"-0.2", "0">>, <<"0", "0.2">>, <<"0.03", "-0.2">> >>
Steep == FlattenSeq([n \in 1..4 |-> [k \in 1..4 |->
    LET t == 1 + ((n + k) % 4)
        cam == Frame(FrameTypes[t], Narrow, Pick(Dists(FrameTypes[t]), n + k), [xyz |-> ScenePoses[1].xyz, opk |-> ObliquePoses[n]], Settings[IF (n + 2 * k) % 4 = 3 THEN 2 ELSE 1]) IN
    Sc("steep", cam, DemFor(cam, "plane", Slopes[k][1], Slopes[k][2], <<"5", "4">>, 80, 100, <<"2.5", "-1">>, <<>>), <<"1.5", "1.25">>, "full",
       [interp |-> Pick(<<"nearest", "cubic", "bilinear">>, n + k), slack |-> "1"])]])

(* terrain above the camera, next to the footprint *)
Corner == [n \in 1..8 |-> LET cam == [CamAt(1 + (n % 4), 1 + (n % 4), n, 1 + (n % 2), 1) EXCEPT !.opk = <<"0", "0", Pick(<<"45", "-38", "130">>, n)>>] IN
    Sc("corner-terrain", cam, Flat(cam, <<"0", "0">>, <<>>), Pick(<< <<"2", "2">>, <<"5", "4">> >>, n), "full", [far |-> "corner", dem_interp |-> Pick(<<"nearest", "bilinear", "cubic">>, n)])]
(* the resolution of the DEM along one axis only *)
HalfGrid == [k \in 1..4 |-> LET cam == CamAt(k, k, k, k, 1) IN
    Sc("half-grid", cam, Dem(cam, <<"2.5", "-1">>, <<>>), << <<"5", "3">>, <<"3", "4">>, <<"5", "2">>, <<"2", "4">> >>[k], "full", [per_band |-> FALSE])]
AutoHoles == [n \in 1..6 |-> LET cam == CamAt(1 + (n % 4), 1 + (n % 4), n, 1 + (n % 5), 1) IN
    Sc("auto-hole", cam, [Flat(cam, <<"0", "0">>, <<36, 44, 7, 9>>) EXCEPT !.nodata = Pick(<<"nan", "-32768", "0">>, n)], <<>>, "partial", [mask |-> n % 3 = 0])]
(* an Ortho object that was used before *)
Used == [k \in 1..12 |-> LET cam == CamAt(1 + (k % 4), 1 + (k % 4), k, 1 + (k % 5), 1) IN
    Sc("used", cam, IF k % 3 = 0 THEN Flat(cam, Pick(Shifts, k), <<>>) ELSE Dem(cam, <<"2.5", "-1">>, <<>>), Pick(<< <<"2", "2.5">>, <<"1.25", "1">>, <<"5", "4">> >>, k), IF k % 3 = 0 THEN "partial" ELSE "full",
      [before |-> Pick(<< <<"dem">>, <<"auto", "dem">>, <<"fail", "coarse", "dem">>, <<"fine", "perband">> >>, k)])]
GenCases == Full \o Auto \o Partial \o Holes \o FarHoles \o None \o Grid \o Far \o Crss \o RpcScenes \o Wrong \o Steep \o HalfGrid \o Corner \o AutoHoles \o Used
=============================================================================
