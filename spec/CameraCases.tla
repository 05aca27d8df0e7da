---------------------------- MODULE CameraCases -----------------------------
(***************************************************************************)
(* Catalogue of cameras and poses that the case generators draw from.      *)
(* Reals are decimal text.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

(* image size, focal length(s), sensor size, principal point *)
Interiors == <<
  [size |-> <<60, 40>>, focal |-> <<"25", "25">>, sensor |-> <<"30", "20">>, c |-> <<"0", "0">>, scalar |-> TRUE],
  [size |-> <<48, 64>>, focal |-> <<"1.1", "1.3">>, sensor |-> <<"1.5", "1.8">>, c |-> <<"0.03", "-0.05">>, scalar |-> FALSE],
  [size |-> <<50, 30>>, focal |-> <<"0.9", "0.9">>, sensor |-> <<>>, c |-> <<"-0.04", "0.02">>, scalar |-> TRUE],
  [size |-> <<32, 56>>, focal |-> <<"0.8", "0.85">>, sensor |-> <<>>, c |-> <<"0.01", "0.06">>, scalar |-> FALSE] >>

NoDist == [k0 |-> "0"]
BrownDists == <<
  [k1 |-> "-0.08", k2 |-> "0.03", p1 |-> "0.002", p2 |-> "-0.004", k3 |-> "-0.01"],
  [k1 |-> "0.05", p2 |-> "0.006"],
  [k2 |-> "0.04", k3 |-> "0.02", p1 |-> "-0.005"] >>
(* coefficients alone, and such that cancel *)
BrownOdd == << [k3 |-> "-0.03"], [k1 |-> "0.04", k2 |-> "-0.04"], [p2 |-> "0.004"], [p1 |-> "0.003", p2 |-> "-0.003"] >>
OpencvOdd == << [k4 |-> "0.05", k5 |-> "-0.05"], [s1 |-> "0.004", s2 |-> "-0.004"], [tx |-> "0.02", ty |-> "-0.02"], [k3 |-> "-0.03"], [k6 |-> "0.03"], [ty |-> "0.03"],
  [s3 |-> "0.004"], [k1 |-> "0.03", k2 |-> "-0.03"], [k3 |-> "0.02", k4 |-> "-0.02"] >>
FisheyeOdd == << [k3 |-> "0.02"], [k3 |-> "0.01", k4 |-> "-0.01"], [k2 |-> "-0.02"], NoDist, [k1 |-> "0.02", k2 |-> "-0.02"] >>
OddDists(type) == CASE type = "pinhole" -> <<>> [] type = "brown" -> BrownOdd [] type = "opencv" -> OpencvOdd [] type = "fisheye" -> FisheyeOdd
OpencvDists == <<
  [k1 |-> "-0.08", k2 |-> "0.03", p1 |-> "0.002", p2 |-> "-0.004"],
  [k1 |-> "-0.06", k2 |-> "0.03", p1 |-> "0.002", p2 |-> "-0.004", k3 |-> "-0.01"],
  [k1 |-> "0.1", k2 |-> "-0.03", p1 |-> "-0.001", p2 |-> "0.003", k3 |-> "0.01", k4 |-> "0.06", k5 |-> "-0.02", k6 |-> "0.015"],
  [k1 |-> "0.04", k4 |-> "0.05", s1 |-> "0.004", s2 |-> "-0.003", s3 |-> "-0.005", s4 |-> "0.002"],
  [k1 |-> "-0.03", p1 |-> "0.001", k6 |-> "0.02", s1 |-> "0.003", s4 |-> "0.002", tx |-> "0.02", ty |-> "-0.03"] >>
FisheyeDists == <<
  [k1 |-> "-0.05", k2 |-> "0.02"],
  [k1 |-> "0.03", k2 |-> "-0.01", k3 |-> "0.006", k4 |-> "-0.002"],
  [k4 |-> "0.01"] >>
Dists(type) == CASE type = "pinhole" -> <<NoDist>>
                 [] type = "brown" -> BrownDists
                 [] type = "opencv" -> OpencvDists
                 [] type = "fisheye" -> FisheyeDists
FrameTypes == <<"pinhole", "brown", "opencv", "fisheye">>

(* position, and omega, phi, kappa in degrees *)
Poses == <<
  [xyz |-> <<"0", "0", "100">>, opk |-> <<"0", "0", "0">>],
  [xyz |-> <<"500.25", "-300.5", "120">>, opk |-> <<"0", "0", "90">>],
  [xyz |-> <<"612345.5", "7123456.25", "1530.5">>, opk |-> <<"-12", "7.5", "-143">>],
  [xyz |-> <<"-55310.125", "-3732500", "800">>, opk |-> <<"21", "-16", "37.5">>],
  [xyz |-> <<"10", "20", "300">>, opk |-> <<"3", "25", "170">>] >>

(* distortion setting and alpha *)
Settings == <<[distort |-> TRUE, alpha |-> "1"], [distort |-> FALSE, alpha |-> "1"],
              [distort |-> FALSE, alpha |-> "0"], [distort |-> FALSE, alpha |-> "0.4"]>>

Frame(type, in, dist, pose, set) ==
  [type |-> type, size |-> in.size, focal |-> in.focal, sensor |-> in.sensor, c |-> in.c, scalar |-> in.scalar,
   dist |-> dist, xyz |-> pose.xyz, opk |-> pose.opk, distort |-> set.distort, alpha |-> set.alpha]

(* an affine-dominated RPC model: x to sample, -y to line, with small higher order and denominator terms *)
RpcCoeffs(a) == [k \in 1..20 |-> a[k]]
Rpcs == <<
  [line_off |-> "31.5", samp_off |-> "24.25", lat_off |-> "-33.85", long_off |-> "24.41", height_off |-> "600",
   line_scale |-> "32", samp_scale |-> "25", lat_scale |-> "0.004", long_scale |-> "0.005", height_scale |-> "500",
   line_num_coeff |-> <<"0.002", "0.01", "-1.01", "0.03", "0.001", "0.0005", "-0.0007", "0.0009", "-0.0011", "0.0003",
      "0.00002", "0.00001", "-0.00003", "0.00004", "0.00005", "-0.00006", "0.00007", "-0.00008", "0.00009", "0.00001">>,
   line_den_coeff |-> <<"1", "0.0004", "-0.0005", "0.0006", "0.00011", "-0.00012", "0.00013", "-0.00014", "0.00015", "-0.00016",
      "0.00001", "-0.00002", "0.00003", "-0.00004", "0.00005", "0.00006", "-0.00007", "0.00008", "-0.00009", "0.00001">>,
   samp_num_coeff |-> <<"-0.003", "1.005", "0.012", "-0.025", "-0.0012", "0.0006", "0.0008", "-0.0004", "0.001", "-0.0002",
      "-0.00003", "0.00002", "0.00004", "-0.00001", "0.00006", "0.00005", "-0.00004", "0.00003", "0.00002", "-0.00002">>,
   samp_den_coeff |-> <<"1", "-0.0003", "0.0007", "-0.0002", "0.0001", "0.00015", "-0.0001", "0.00012", "-0.00013", "0.00011",
      "-0.00002", "0.00003", "-0.00001", "0.00002", "-0.00003", "0.00004", "0.00005", "-0.00006", "0.00001", "0.00003">>],
  [line_off |-> "20", samp_off |-> "30", lat_off |-> "45.5", long_off |-> "-120.25", height_off |-> "-20",
   line_scale |-> "21", samp_scale |-> "31", lat_scale |-> "0.003", long_scale |-> "0.0045", height_scale |-> "300",
   line_num_coeff |-> <<"0", "-0.2", "-0.98", "0.05", "0", "0.001", "0", "0", "0.002", "0",
      "0", "0.0001", "0", "0", "0", "0", "0.0002", "0", "0", "0">>,
   line_den_coeff |-> <<"1", "0", "0.001", "0", "0", "0", "0", "0.0002", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0">>,
   samp_num_coeff |-> <<"0", "0.97", "-0.21", "0.02", "0.001", "0", "0", "0.0015", "0", "0",
      "0", "0", "0.0002", "0", "0", "0", "0", "0.0001", "0", "0">>,
   samp_den_coeff |-> <<"1", "0.0015", "0", "0", "0", "0", "0", "0", "0.0003", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0">>] >>
RpcSizes == << <<50, 64>>, <<60, 40>> >>
RpcCrss == << <<"none", "EPSG:32735">>, <<"none", "EPSG:32610">> >>
=============================================================================
