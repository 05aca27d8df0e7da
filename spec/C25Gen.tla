------------------------------- MODULE C25Gen -------------------------------
EXTENDS Gen, CameraCases, Resample

Interps == <<"nearest", "average", "bilinear", "cubic", "lanczos">>
Types == <<"uint8", "uint16", "int16", "float32", "float64">>
\* nodata values that the source does not have
Nodatas(dtype) == <<"none", "0", "3", DefaultNodata(dtype)>> \o (IF dtype = "uint8" THEN <<"255">> ELSE IF dtype = "uint16" THEN <<"65535">> ELSE <<"-9">>)
Text3(v) == <<RText(v[1]), RText(v[2]), RText(v[3])>>
Calls(h) ==
  LET dtype == Pick(Types, Rnd(h + 11, 5))
      out == Pick(<<"none", "none", "float32", "float64">>, Rnd(h + 12, 4))
      bands == 1 + Rnd(h + 13, 4)
      t == IF out = "none" THEN dtype ELSE out
  IN [dtype |-> dtype, out |-> out, bands |-> bands, nodata |-> Pick(Nodatas(t), Rnd(h + 14, 5)), interp |-> Pick(Interps, h \div 4),
      indexes |-> CASE Rnd(h + 15, 4) = 0 -> <<1 + Rnd(h + 16, bands)>> [] Rnd(h + 15, 4) = 1 -> [k \in 1..bands |-> bands + 1 - k] [] OTHER -> <<>>,
      scalar |-> Rnd(h + 17, 2) = 0, zdtype |-> Pick(<<"float64", "float32">>, Rnd(h + 18, 2)), way |-> Pick(<<"path", "str", "openfile", "dataset">>, Rnd(h + 19, 4)), spoil |-> "none"]
Rows == 12  Cols == 14
\* fraction k of n of a range of pixels with some more on both sides
Spread(k, n, size) == (R(size + 16) ** (R(2 * k - 1) // R(2 * n))) -- "8.5"
Hole(h, k) == Rnd(h + 23, 3) = 0 /\ k \in {47, 92}
FrameCase(h) ==
  LET type == FrameTypes[1 + (h % 4)]
      dist == Pick(Dists(type) \o OddDists(type), Rnd(h + 1, 60))
      pose == Pick(Poses, Rnd(h + 2, 5))
      cam == Frame(type, Pick(Interiors, Rnd(h + 3, 4)), dist, pose, Pick(Settings, Rnd(h + 4, 4)))
      p == TLCEval(Prepared([cam EXCEPT !.distort = TRUE]))
      z(k) == R(pose.xyz[3]) -- (R(80) ++ (R(Rnd(h + k, 8)) ** "0.25"))
      \* on the rays of a camera without distortion
      pt(k) == Text3(TLCEval(RayAt(p, TLCEval(FromPixel(p.K, <<Spread(1 + ((k - 1) % Cols), Cols, cam.size[1]), Spread(1 + ((k - 1) \div Cols), Rows, cam.size[2])>>)), TLCEval(z(k)))))
      src == IF cam.distort /\ Rnd(h + 5, 3) = 0 /\ Calls(h).interp # "lanczos" THEN "texture" ELSE "affine"
  IN Calls(h) @@ [name |-> "frame-" \o ToString(h), kind |-> "frame", cam |-> cam, rows |-> Rows, cols |-> Cols, src |-> src,
      pts |-> [k \in 1..(Rows * Cols) |-> LET w == pt(k) IN IF Hole(h, k) THEN <<w[1], w[2], "nan">> ELSE w]]
RpcCase(h) ==
  LET r == 1 + (h % 2)
      rpc == Rpcs[r]
      pt(k) == <<R(rpc.long_off) ++ (R(rpc.long_scale) ** (("-1.5") ++ (R(3 * ((k - 1) % Cols)) // R(Cols - 1)))),
                 R(rpc.lat_off) ++ (R(rpc.lat_scale) ** (("1.5") -- (R(3 * ((k - 1) \div Cols)) // R(Rows - 1)))), R(rpc.height_off) ++ R(Rnd(h + k, 60))>>
  IN Calls(h) @@ [name |-> "rpc-" \o ToString(h), kind |-> "rpc", rpc |-> rpc, size |-> RpcSizes[r], rows |-> Rows, cols |-> Cols,
      src |-> IF Rnd(h + 5, 3) = 0 /\ Calls(h).interp # "lanczos" THEN "texture" ELSE "affine",
      pts |-> [k \in 1..(Rows * Cols) |-> LET w == Text3(pt(k)) IN IF Hole(h, k) THEN <<w[1], w[2], "nan">> ELSE w]]
\* images with the nodata value in one band only
Dark(c, h) == c @@ [blank |-> NodataOf(c), dark |-> Rnd(h + 20, 3) = 0 /\ Len(BandsOf(c)) > 1 /\ ~Undistorted(c)]
Spoils == <<"shape-x", "shape-z", "float32-x", "int-z", "flat", "image-2d", "image-int32", "image-bool", "image-wide">>
Spoilt == FlattenSeq([s \in DOMAIN Spoils |-> [k \in 1..2 |-> [Dark(IF k = 1 THEN FrameCase(s) ELSE RpcCase(s), s) EXCEPT !.name = Spoils[s] \o ToString(k), !.spoil = Spoils[s]]]])
GenCases == [h \in 1..(IF Thorough THEN 900 ELSE 150) |-> Dark(FrameCase(h), h)] \o [h \in 1..(IF Thorough THEN 120 ELSE 24) |-> Dark(RpcCase(h), h)] \o Spoilt
=============================================================================
