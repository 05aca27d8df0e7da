------------------------------- MODULE C01Gen -------------------------------
EXTENDS Gen, OrthoCases

CamAt(t, i, d, p, s) == Frame(FrameTypes[t], Interiors[i], Pick(Dists(FrameTypes[t]), d), ScenePoses[p], Settings[s])
PlaneDem(cam) == DemFor(cam, "plane", "0.08", "-0.05", <<"5", "5">>, 80, 84, <<"2.5", "-1">>, <<>>)
CellDem(cam, res) == DemFor(cam, "cells", "0", "0", <<res, res>>, 130, 124, <<"1", "0.5">>, <<>>)
FlatDem(cam) == DemFor(cam, "plane", "0", "0", <<"10", "7">>, 44, 60, <<"0", "3">>, <<>>)

Interps == <<"nearest", "average", "bilinear", "cubic", "lanczos">>

(* every camera model, interior, distortion, pose and undistortion setting *)
Models == FlattenSeq([t \in 1..4 |-> FlattenSeq([s \in 1..4 |-> [p \in 1..5 |->
    LET cam == CamAt(t, 1 + ((s + p + t) % 4), s + p, p, s) IN
    FrameScene("model", cam, PlaneDem(cam), Pick(<< <<"2", "3">>, <<"3.5", "2.5">>, <<"2", "2">> >>, s + p), [per_band |-> p % 2 = 0])]])])
(* interpolation, band-wise processing, data type, DEM interpolation, tile layout *)
Options == FlattenSeq([n \in 1..5 |-> [k \in 1..4 |->
    LET cam == CamAt(1 + ((n + k) % 4), 1 + ((n + k) % 4), n, 1 + ((n + 2 * k) % 5), 1) IN
    FrameScene("options", cam, IF k = 3 THEN FlatDem(cam) ELSE PlaneDem(cam), << <<"2", "2">>, <<"1.5", "2.5">>, <<"4", "3">>, <<"2.25", "2">> >>[k],
      [interp |-> Interps[n], dem_interp |-> IF k = 3 THEN "nearest" ELSE <<"bilinear", "cubic", "x", "lanczos">>[k],
       per_band |-> k \in {2, 3}, dtype |-> <<"float32", "uint16", "uint8", "int16">>[k], bands |-> <<1, 2, 3, 4>>[1 + ((n + k) % 4)],
       tile |-> <<16, <<48, 16>>, "strip", 32>>[1 + ((n + k) % 4)]])]])
(* a texture, which tells the interpolation methods apart *)
Textures == FlattenSeq([n \in 1..4 |-> [p \in 1..5 |->
    LET cam == CamAt(Pick(<<1, 2, 3, 4>>, n + p), Pick(<<1, 2, 3, 4>>, p), n, p, 1) IN
    FrameScene("texture", cam, PlaneDem(cam), <<"2", "2.5">>, [interp |-> Interps[n], src |-> "texture", per_band |-> n % 2 = 0,
      dtype |-> Pick(<<"float32", "uint8">>, n + p)])]])
(* a DEM on the ortho grid, with steps from cell to cell: the height of the very cell is used *)
Cells == [p \in 1..5 |-> LET cam == CamAt(Pick(<<1, 2, 4>>, p), Pick(<<1, 3, 2>>, p), p, p, IF p = 4 THEN 2 ELSE 1) IN
    FrameScene("cells", cam, CellDem(cam, Pick(<<"3", "2.5">>, p)), <<Pick(<<"3", "2.5">>, p), Pick(<<"3", "2.5">>, p)>>,
      [slack |-> "5", per_band |-> p % 2 = 1])]
(* a coarser DEM with steps from cell to cell, taken at its nearest cell *)
StepDem(cam, res) == DemFor(cam, "cells", "0", "0", <<res, res>>, 36, 34, <<"1", "0.5">>, <<>>)
Steps == [p \in 1..5 |-> LET cam == CamAt(Pick(<<1, 2, 4>>, p), Pick(<<1, 3, 2>>, p), p, p, IF p = 4 THEN 2 ELSE 1) IN
    FrameScene("steps", cam, StepDem(cam, Pick(<<"11.3", "7.9", "14.6">>, p)), Pick(<< <<"3", "3">>, <<"2.5", "2.5">>, <<"4", "2">> >>, p + (p \div 4)),
      [slack |-> "5", dem_interp |-> "nearest", interp |-> Pick(<<"nearest", "cubic", "lanczos", "bilinear">>, p), per_band |-> p % 2 = 1])]
(* DEM in another CRS: geographic, ellipsoidal and geoid heights *)
GeoDem(cam, crs, lon, lat, z0) == [kind |-> "plane", z0 |-> z0, ax |-> "300", ay |-> "-500", cx |-> lon, cy |-> lat,
   x0 |-> RText(R(lon) -- "0.0040"), y0 |-> RText(R(lat) ++ "0.0036"), rx |-> "0.0001", ry |-> "0.00008", nx |-> 80, ny |-> 90,
   hole |-> <<>>, crs |-> crs, dtype |-> "float32", nodata |-> "nan"]
GeoPose == [xyz |-> <<"260368.31", "6251457.375", "900">>, opk |-> <<"4", "-6", "25">>]
Crss == FlattenSeq([n \in 1..3 |-> [t \in 1..3 |->
    LET cam == Frame(Pick(<<"pinhole", "brown", "fisheye">>, t), Interiors[t], Pick(Dists(Pick(<<"pinhole", "brown", "fisheye">>, t)), t), GeoPose, Settings[1]) IN
    FrameScene("crs", cam, GeoDem(cam, <<"EPSG:4326", "EPSG:4979", "EPSG:4326+5773">>[n], "24.41", "-33.85", "800"), <<"2", "2.5">>,
      [world |-> <<"EPSG:32735", "EPSG:32735+5773", "+proj=utm +zone=35 +south +datum=WGS84 +vunits=m +type=crs">>[n],
       dem_interp |-> "bilinear", slack |-> "0.5"])]])
RpcScenes == FlattenSeq([r \in 1..2 |-> [k \in 1..4 |->
    RpcScene("rpc", r, RpcDem(r, IF k = 4 THEN "cells" ELSE "plane", "2000", "-3000", IF k = 4 THEN <<"0.0002", "0.0002">> ELSE <<"0.0004", "0.0005">>,
                      IF k = 4 THEN 80 ELSE 50, IF k = 4 THEN 80 ELSE 40, <<"0.0001", "0">>, <<>>),
      IF k = 3 THEN <<"18", "21">> ELSE IF k = 4 THEN <<"0.0002", "0.0002">> ELSE <<"0.00025", "0.0002">>,
      IF k = 3 THEN RpcCrss[r][2] ELSE IF k = 2 THEN "EPSG:4979" ELSE "EPSG:4326",
      [interp |-> Pick(<<"bilinear", "cubic", "nearest">>, k + r), per_band |-> k = 2, slack |-> "1",
       bands |-> Pick(<<2, 3>>, k)])]])
Misc == [k \in 1..6 |-> LET cam == CamAt(1 + (k % 4), 1 + (k % 4), k, 1 + (k % 5), IF k = 6 THEN 4 ELSE 1) IN
    FrameScene("misc", cam, [PlaneDem(cam) EXCEPT !.dtype = Pick(<<"float64", "float32">>, k), !.nodata = Pick(<<"nan", "-32768">>, k)],
      IF k = 4 THEN <<>> ELSE <<"2", "2">>,
      [tile |-> IF k = 1 THEN 0 ELSE IF k = 2 THEN 128 ELSE 16, driver |-> IF k = 2 THEN "cog" ELSE "gtiff", dtype |-> IF k = 1 THEN "uint16" ELSE "float64",
       mask |-> k = 1, dem_band |-> IF k = 3 THEN 2 ELSE 1, bands |-> Pick(<<3, 5>>, k)])]

(* a world CRS with heights, or all coordinates, in feet *)
FeetPose(u) == [xyz |-> IF u = 1 THEN <<"260368.31", "6251457.375", "2952.75">> ELSE <<"854226.74", "20510000.41", "2952.75">>, opk |-> <<"4", "-6", "25">>]
Feet == FlattenSeq([u \in 1..2 |-> [k \in 1..2 |->
    LET cam == Frame(<<"pinhole", "brown">>[k], Interiors[k], Pick(Dists(<<"pinhole", "brown">>[k]), k), IF u = 1 THEN [FeetPose(1) EXCEPT !.opk = <<"0", "0", "30">>] ELSE FeetPose(2), Settings[1]) IN
    FrameScene("feet", cam, GeoDem(cam, <<"EPSG:4979", "EPSG:4326+5773">>[k], "24.41", "-33.85", "800"), IF u = 1 THEN <<"6", "7">> ELSE <<"7", "8.5">>,
      [world |-> "+proj=utm +zone=35 +south +datum=WGS84 +units=" \o <<"m", "us-ft">>[u] \o " +vunits=us-ft +type=crs",
       dem_interp |-> "bilinear", slack |-> "0.5"])]])
(* the resolution of the DEM along one axis only *)
HalfGrid == [k \in 1..4 |-> LET cam == CamAt(k, k, k, k, 1) IN
    FrameScene("half-grid", cam, PlaneDem(cam), << <<"5", "3">>, <<"3", "5">>, <<"5", "2">>, <<"2", "5">> >>[k], [per_band |-> FALSE])]
(* an Ortho object that was used before *)
Used == [k \in 1..8 |-> LET cam == CamAt(1 + (k % 4), 1 + (k % 4), k, 1 + (k % 5), 1) IN
    FrameScene("used", cam, IF k % 2 = 0 THEN CellDem(cam, "3") ELSE PlaneDem(cam), IF k % 2 = 0 THEN <<"3", "3">> ELSE <<"2", "2.5">>,
      [slack |-> IF k % 2 = 0 THEN "5" ELSE "0", before |-> Pick(<< <<"dem">>, <<"auto", "dem">>, <<"fail", "coarse">>, <<"fine", "perband">> >>, k)])]
GenCases == Models \o Options \o Textures \o Cells \o Steps \o Crss \o RpcScenes \o Misc \o Feet \o HalfGrid \o Used
=============================================================================
