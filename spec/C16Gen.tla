------------------------------- MODULE C16Gen -------------------------------
(* Images with each combination of tags, alone and in collections. *)
EXTENDS Gen, Exif

Base == [size |-> <<"60", "40">>, focal |-> "", f35 |-> "", unit |-> "", xres |-> "", yres |-> "", dewarp |-> <<>>, dewarpdate |-> TRUE, tagw |-> "", tagh |-> "",
         make |-> "Maker", model |-> "Model", serial |-> "", dji |-> <<"", "", "">>, sensefly |-> <<"", "", "">>, pix4d |-> <<"", "", "">>, xlla |-> <<"", "", "">>,
         lat |-> <<>>, lon |-> <<>>, latref |-> "", lonref |-> "", alt |-> "", altref |-> "", style |-> "attribute", ns |-> "default", orientation |-> ""]
Dewarp(k) == <<ToString(50 + k) \o ".5", ToString(51 + k) \o ".25", "0." \o ToString(k), "-1.5", "-0.01", "0.002", "0.0003", "-0.0004", "0.00005">>
WithInterior(t, focal, f35, unit, res, dew, tag, h) ==
  [t EXCEPT !.focal = focal, !.f35 = f35, !.unit = unit, !.xres = IF res = 1 THEN "2.5" ELSE IF res = 2 THEN "0" ELSE IF res = 4 THEN "2.5" ELSE "", !.yres = IF res \in {1, 2} THEN "2.4" ELSE "",
     !.dewarp = CASE dew = 1 -> <<>> [] dew = 2 -> Dewarp(h % 10) [] dew = 3 -> [i \in 1..9 |-> "0"] [] dew = 4 -> SubSeq(Dewarp(1), 1, 8) [] dew = 5 -> Dewarp(3) \o <<"0.1">>
                    [] dew = 6 -> [Dewarp(2) EXCEPT ![1 + (h % 9)] = "0", ![5 + (h % 5)] = "0.0", ![1] = "52.5", ![2] = "51.5"],
     !.dewarpdate = (h % 3) # 0, !.tagw = IF tag = 1 THEN "" ELSE IF tag = 2 THEN t.size[1] ELSE "120", !.tagh = IF tag \in {1, 4} THEN "" ELSE IF tag = 2 THEN t.size[2] ELSE "80"]
Place1(t, h) ==
  LET s == Rnd(h, 4)
  IN [t EXCEPT !.lat = <<ToString(10 + Rnd(h + 1, 50)), ToString(Rnd(h + 2, 60)), ToString(Rnd(h + 3, 60)) \o ".125">>, !.latref = IF s < 2 THEN "N" ELSE "S",
              !.lon = <<ToString(Rnd(h + 4, 180)), ToString(Rnd(h + 5, 60)), ToString(Rnd(h + 6, 60)) \o ".5">>, !.lonref = IF s % 2 = 0 THEN "E" ELSE "W",
              !.alt = IF Rnd(h + 7, 5) = 0 THEN "0" ELSE ToString(Rnd(h + 7, 900)) \o ".5", !.altref = Pick(<<"", "0x00", "0x01">>, Rnd(h + 8, 3))]
Zeroed(s, h) == [i \in 1..3 |-> IF Rnd(h + 40, 6) = i THEN "0.0" ELSE s[i]]
XPlace(t, h) == [t EXCEPT !.xlla = Zeroed(<<ToString(Rnd(h + 11, 120) - 60) \o ".25", ToString(Rnd(h + 12, 360) - 180) \o ".375", ToString(Rnd(h + 13, 500) - 20) \o ".75">>, h)]
Turn(h) == [i \in 1..3 |-> IF Rnd(h + i, 6) = 0 THEN "0" ELSE ToString(Rnd(h + i, 180) - 90) \o ".5"]
Part(s, p) == CASE p = 1 -> s [] p = 2 -> <<"", "", "">> [] OTHER -> [s EXCEPT ![p - 2] = ""]
Various(t, h) == [t EXCEPT !.style = Pick(<<"attribute", "element", "prefix", "mixed">>, Rnd(h + 21, 4)), !.ns = Pick(<<"default", "default", "exif", "exif-other", "default-other", "split">>, Rnd(h + 22, 6)),
                          !.orientation = Pick(<<"", "1", "6">>, Rnd(h + 23, 3)), !.size = IF Rnd(h + 24, 4) = 0 THEN <<"40", "60">> ELSE <<"60", "40">>,
                          !.serial = IF Rnd(h + 25, 3) = 0 THEN "SN-12a" ELSE "", !.make = IF Rnd(h + 26, 5) = 0 THEN "" ELSE "Maker", !.model = IF Rnd(h + 27, 5) = 0 THEN "" ELSE "Model"]
Good(h) == WithInterior([Place1(Various(Base, h), h) EXCEPT !.pix4d = Turn(h)], "25.5", "", "4", 1, 1, 1, h)
One(name, t) == [name |-> name, images |-> <<t>>]

FocalV == <<"", "0", "24.5">>
F35V == <<"", "0", "41">>
UnitV == <<"", "2", "3", "4", "5", "7">>
Interiors == FlattenSeq([f \in 1..3 |-> FlattenSeq([g \in 1..3 |-> FlattenSeq([u \in 1..6 |-> FlattenSeq([r \in 1..4 |-> FlattenSeq([d \in 1..6 |-> [g4 \in 1..4 |->
  LET h == f * 1000 + g * 300 + u * 50 + r * 10 + d * 3 + g4
  IN One("int-" \o ToString(f) \o ToString(g) \o ToString(u) \o ToString(r) \o ToString(d) \o ToString(g4), WithInterior(Good(h), FocalV[f], F35V[g], UnitV[u], r, d, g4, h))]])])])])])
Positions == FlattenSeq([x \in 1..5 |-> FlattenSeq([e \in 1..7 |-> [s \in 1..8 |->
  LET h == 20000 + x * 60 + e * 9 + s
      g == Good(h)
      a == [g EXCEPT !.xlla = Part(XPlace(g, h).xlla, x)]
      b == CASE e = 1 -> a [] e = 2 -> [a EXCEPT !.lat = <<>>] [] e = 3 -> [a EXCEPT !.lon = <<>>] [] e = 4 -> [a EXCEPT !.latref = ""] [] e = 5 -> [a EXCEPT !.lonref = ""] [] e = 6 -> [a EXCEPT !.alt = ""]
             [] OTHER -> [a EXCEPT !.lat = <<>>, !.lon = <<>>, !.latref = "", !.lonref = "", !.alt = "", !.altref = ""]
  IN One("pos-" \o ToString(x) \o ToString(e) \o ToString(s), b)]])])
Turns == FlattenSeq([x \in 1..5 |-> FlattenSeq([e \in 1..5 |-> [s \in 1..5 |->
  LET h == 30000 + x * 60 + e * 9 + s IN One("rpy-" \o ToString(x) \o ToString(e) \o ToString(s), [Good(h) EXCEPT !.dji = Part(Turn(h + 1), x), !.sensefly = Part(Turn(h + 7), e), !.pix4d = Part(Turn(h + 15), s)])]])])
\* collections: images of one camera with other focal lengths or sizes, and of several cameras
Mixed(h, k) ==
  LET g == Good(h * 10 + k)
      same == [g EXCEPT !.make = "Maker", !.model = IF Rnd(h, 2) = 0 THEN "Model" ELSE "", !.serial = ""]
      near == [same EXCEPT !.xlla = <<"-33." \o ToString(500 + k), "24." \o ToString(700 + k), "300.5">>, !.ns = "default"]
      f == ToString(20 + Rnd(h + k, 3)) \o ".5"
  IN CASE h % 6 = 0 -> near
       [] h % 6 = 1 -> [near EXCEPT !.focal = f]
       [] h % 6 = 2 -> [near EXCEPT !.size = IF Rnd(h + k, 2) = 0 THEN <<"60", "40">> ELSE <<"40", "60">>]
       [] h % 6 = 3 -> WithInterior(near, f, "35", "4", 1, IF k % 2 = 0 THEN 2 ELSE 1, 2, h)
       [] h % 6 = 4 -> [near EXCEPT !.serial = "S" \o ToString(Rnd(h + k, 2)), !.focal = f]
       [] OTHER -> IF k = 2 THEN WithInterior(near, "", "", "", 3, 1, 1, h) ELSE IF k = 3 /\ h % 4 = 1 THEN [near EXCEPT !.pix4d = <<"1", "", "2">>] ELSE near
Collections == [h \in 1..(IF Thorough THEN 1200 ELSE 240) |-> [name |-> "many-" \o ToString(h), images |-> [k \in 1..(2 + (h % 3)) |-> Mixed(h + 5000 * Seed, k)]]]
GenCases == Interiors \o Positions \o Turns \o Collections
=============================================================================
