----------------------------- MODULE OrthoCases -----------------------------
(***************************************************************************)
(* Scenes for the ortho checks.                                            *)
(***************************************************************************)
EXTENDS CameraCases, Camera

ScenePoses == <<
  [xyz |-> <<"300000", "6200000", "900">>, opk |-> <<"0", "0", "0">>],
  [xyz |-> <<"300512.25", "6199700.5", "912.5">>, opk |-> <<"0", "0", "90">>],
  [xyz |-> <<"612345.5", "7123456.25", "1530.5">>, opk |-> <<"-12", "7.5", "-143">>],
  [xyz |-> <<"455310.125", "6232500", "850">>, opk |-> <<"14", "-16", "37.5">>],
  [xyz |-> <<"510020.375", "5890010", "700">>, opk |-> <<"3", "19", "170">>] >>

(* ground heights below the camera, so that a pixel is about 2 m on the ground *)
DropOf(cam) == IF cam.sensor = <<>> THEN 100 ELSE 90

(* DEM around the image centre.  k: height function, res: cell size, cells: number of rows and columns, *)
(* off: shift of the DEM against the footprint, in m                                                     *)
DemFor(cam, kind, ax, ay, res, nx, ny, off, hole) ==
  LET p == Prepared([cam EXCEPT !.distort = TRUE])
      z0 == R(cam.xyz[3]) -- DropOf(cam)
      ctr == BackProjectPrepared(p, <<(cam.size[1] -- 1) // 2, (cam.size[2] -- 1) // 2>>, z0)
      cx == R(RFloorInt(ctr[1]))  cy == R(RFloorInt(ctr[2]))
  IN [kind |-> kind, z0 |-> RText(z0), ax |-> ax, ay |-> ay, cx |-> RText(cx), cy |-> RText(cy),
      x0 |-> RText((cx -- ((R(nx) ** res[1]) // 2)) ++ off[1]),
      y0 |-> RText((cy ++ ((R(ny) ** res[2]) // 2)) ++ off[2]),
      rx |-> res[1], ry |-> res[2], nx |-> nx, ny |-> ny, hole |-> hole, crs |-> "world", dtype |-> "float32", nodata |-> "nan"]

RpcDem(r, kind, ax, ay, res, nx, ny, off, hole) ==
  LET cx == R(Rpcs[r].long_off)  cy == R(Rpcs[r].lat_off) IN
  [kind |-> kind, z0 |-> Rpcs[r].height_off, ax |-> ax, ay |-> ay, cx |-> Rpcs[r].long_off, cy |-> Rpcs[r].lat_off,
   x0 |-> RText((cx -- ((R(nx) ** res[1]) // 2)) ++ off[1]),
   y0 |-> RText((cy ++ ((R(ny) ** res[2]) // 2)) ++ off[2]),
   rx |-> res[1], ry |-> res[2], nx |-> nx, ny |-> ny, hole |-> hole, crs |-> "EPSG:4326", dtype |-> "float32", nodata |-> "nan"]

Base == [interp |-> "cubic", dem_interp |-> "cubic", per_band |-> FALSE, tile |-> 16, dtype |-> "float32", bands |-> 3,
         src |-> "affine", slack |-> "0", world |-> "EPSG:32735", src_file |-> "path", dem_band |-> 1, driver |-> "gtiff"]
FrameScene(name, cam, dem, res, opts) ==
  opts @@ [name |-> name, kind |-> "frame", cam |-> cam, dem |-> dem, res |-> res] @@ Base
RpcScene(name, r, dem, res, world, opts) ==
  opts @@ [name |-> name, kind |-> "rpc", rpc |-> Rpcs[r], size |-> RpcSizes[r], dem |-> dem, res |-> res, world |-> world] @@ Base
=============================================================================
