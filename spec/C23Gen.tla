------------------------------- MODULE C23Gen -------------------------------
EXTENDS Gen, CameraCases, Fit

Large == <<[size |-> <<4000, 3000>>, focal |-> <<"35", "35">>, sensor |-> <<"36", "27">>, c |-> <<"0.004", "-0.01">>, scalar |-> TRUE],
           [size |-> <<1500, 2400>>, focal |-> <<"1.2", "1.25">>, sensor |-> <<>>, c |-> <<"0", "0">>, scalar |-> FALSE]>>
AllInteriors == Interiors \o Large
\* fractions of the image size, in thousandths: the first three are not in a line, and the first four not three in a line
Spots == << <<120, 150>>, <<870, 240>>, <<430, 880>>, <<700, 560>>, <<250, 520>>, <<520, 100>>, <<80, 930>>, <<930, 900>>, <<600, 330>>, <<330, 300>>, <<780, 780>>, <<150, 700>> >>
Jis(in, n, h) == [k \in 1..n |-> LET s == Spots[1 + ((k + h) % 12)] IN
  <<(R(in.size[1]) ** R(s[1] + Rnd(h * 3 + k, 50))) // 1000, (R(in.size[2]) ** R(s[2] + Rnd(h * 5 + k, 50))) // 1000>>]
\* three neighbours in Spots that are not in a line
PoseAt(h, i) ==
  LET far == Rnd(h + 60, 4) IN
  [xyz |-> CASE far = 0 -> <<R(100 * i), R(-50 * i), R(300)>>
             [] far = 1 -> <<R(612345) ++ R(137 * i), R(7123456) -- R(211 * i), R(1530)>>
             [] far = 2 -> <<R(-55310) ++ R(2137 * i), R(-3732500) ++ R(3011 * i), R(800 + 10 * i)>>
             [] far = 3 -> <<R(20) ++ (R(i) ** "0.5"), R(30), R(20)>>,
   opk |-> CASE Rnd(h * 7 + i, 4) = 0 -> <<"0", "0", ToString(Rnd(h + i, 360) - 180)>>
             [] Rnd(h * 7 + i, 4) = 1 -> <<ToString(Rnd(h + i + 1, 30) - 15), ToString(Rnd(h + i + 2, 30) - 15), ToString(Rnd(h + i, 360) - 180)>>
             [] Rnd(h * 7 + i, 4) = 2 -> <<ToString(Rnd(h + i + 3, 70) - 35), ToString(Rnd(h + i + 4, 50) - 25), ToString(Rnd(h + i, 3600)) \o "e-1">>
             [] OTHER -> <<"2.5", "-1.25", "90">>]
Text3(v) == <<RText(v[1]), RText(v[2]), RText(v[3])>>
Text2(v) == <<RText(v[1]), RText(v[2])>>
Camera1(h) ==
  LET type == FrameTypes[1 + (h % 4)]
      in == Pick(AllInteriors, Rnd(h + 1, 60))
      dist == Pick(Dists(type), Rnd(h + 2, 60))
  IN [type |-> type, in |-> in, dist |-> dist]
\* terrain below the camera
Height(shape, h, z, k) == CASE shape = "flat" -> R(0)
                            [] shape = "rough" -> (z ** R(Rnd(h + 5 * k, 40) - 20)) // 100
                            [] shape = "slope" -> (z ** R(k - 3)) // 40
Local(h) ==
  LET c1 == Camera1(h)
      n == 1 + ((Rnd(h + 3, 6) % 4) % 3)
      shape == Pick(<<"rough", "flat", "rough", "slope">>, Rnd(h + 4, 4))
      image(i) ==
        LET pose == PoseAt(h, i)
            cam == Frame(c1.type, c1.in, c1.dist, pose, Settings[1])
            p == Prepared(cam)
            ng == Pick(<<3, 6, 5, 8, 4, 7>>, Rnd(h * 3 + i, 6))
            jis == TLCEval(Jis(c1.in, ng, h + i))
            drop == IF Rnd(h + 60, 4) \in {1, 2} THEN R(500) ELSE R(pose.xyz[3]) // 2
            zs == [k \in 1..ng |-> (R(pose.xyz[3]) -- drop) ++ Height(shape, h, drop, k)]
            w == TLCEval(OnRays(p, jis, zs))
        IN [name |-> "im" \o ToString(i) \o ".tif", xyz |-> Text3(cam.xyz), opk |-> cam.opk,
            gcps |-> [k \in 1..ng |-> [ji |-> Text2(jis[k]), xyz |-> Text3(w[k]), lla |-> <<>>]]]
  IN [name |-> "local-" \o ToString(h), type |-> c1.type, in |-> c1.in, dist |-> c1.dist, images |-> [i \in 1..n |-> image(i)], crs |-> 0, crsform |-> "none", shape |-> shape,
      others |-> Rnd(h + 8, 4) = 0, form |-> Pick(<<"tuple", "list", "array">>, Rnd(h + 9, 3))]
\* GCPs in geographic coordinates, and a world CRS
Lats == <<"-34.3", "47.25", "0.0002", "-0.5", "60.5", "12.125">>
Lons == <<"20.83", "27.002", "-120.0007", "149.25", "-66.1", "3.5">>
Global(h) ==
  LET c1 == Camera1(h)
      lat == Pick(Lats, Rnd(h + 70, 6))  lon == Pick(Lons, Rnd(h + 71, 6))
      south == South(lat) # (Rnd(h + 72, 5) = 0)
      zone == 1 + ((Zone(lon) + 59 + (IF Rnd(h + 73, 4) = 0 THEN 1 ELSE 0)) % 60)
      proj == UtmOf(zone, south)
      n == 1 + Rnd(h + 74, 2)
      image(i) ==
        LET xy == Project2(proj, lat, lon)
            pose == [xyz |-> <<xy[1] ++ R(10 * i), xy[2], R(400 + 50 * i)>>, opk |-> <<ToString(Rnd(h + i, 12) - 6), ToString(Rnd(h + i + 9, 12) - 6), ToString(Rnd(h + i, 360))>>]
            cam == Frame(c1.type, c1.in, c1.dist, pose, Settings[1])
            p == Prepared(cam)
            ng == Pick(<<5, 6, 12>>, Rnd(h + 3 * i, 3))
            at(k) == LET s == Spots[1 + ((k + h) % 12)] IN <<lat ++ (R(s[1] - 500) ** "0.000002"), lon ++ (R(s[2] - 500) ** "0.000002"), R(20 + Rnd(h + 11 * k, 60))>>
            w(k) == LET a == at(k) IN Append(Project2(proj, a[1], a[2]), a[3])
        IN [name |-> "im" \o ToString(i) \o ".tif", xyz |-> Text3(cam.xyz), opk |-> cam.opk,
            gcps |-> [k \in 1..ng |-> [ji |-> Text2(ProjectPrepared(p, w(k))), xyz |-> Text3(w(k)), lla |-> Text3(<<at(k)[2], at(k)[1], at(k)[3]>>)]]]
  IN [name |-> "global-" \o ToString(h), type |-> c1.type, in |-> c1.in, dist |-> c1.dist, images |-> [i \in 1..n |-> image(i)], crs |-> UtmCode(zone, south),
      crsform |-> Pick(<<"string", "object", "wkt">>, Rnd(h + 6, 3)), shape |-> "rough", others |-> FALSE, form |-> "tuple"]
\* too few GCPs for one of the images
Few(h) == LET c == Local(h)  i == 1 + Rnd(h, Len(c.images)) IN [c EXCEPT !.name = "few-" \o ToString(h), !.images[i].gcps = SubSeq(@, 1, h % 3)]
GenCases == [h \in 1..(IF Thorough THEN 2500 ELSE 200) |-> Local(h + 3000 * Seed)] \o [h \in 1..(IF Thorough THEN 500 ELSE 60) |-> Global(h + 3000 * Seed)] \o [h \in 1..12 |-> Few(h)]
=============================================================================
