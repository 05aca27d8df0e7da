-------------------------------- MODULE Exif --------------------------------
(***************************************************************************)
(* Camera parameters from the tags of an image.                            *)
(*                                                                         *)
(* Tags are decimal texts, "" where a tag is absent:                       *)
(*   size            <<width, height>> of the image                        *)
(*   focal, f35      focal length (mm), and its 35 mm equivalent           *)
(*   unit, xres, yres   focal plane resolution                             *)
(*   dewarp          DJI dewarp data, a sequence (<<>>: absent)            *)
(*   tagw, tagh      image size tags                                       *)
(*   make, model, serial                                                   *)
(*   dji, gps, sensefly, pix4d, xlla   sequences of three                  *)
(*   lat, lon        degrees, minutes, seconds (<<>>: absent)              *)
(*   latref, lonref, alt, altref                                           *)
(* An image has the parameters of the first complete set of tags.          *)
(***************************************************************************)
EXTENDS Place

Known(v) == v # "" /\ ~REq(v, 0)                     \* 0 stands for unknown in EXIF
All(s) == \A i \in DOMAIN s : s[i] # ""
MmPerUnit(u) == CASE u = "2" -> "25.4" [] u = "3" -> "10" [] u = "4" -> "1" [] u = "5" -> "0.001" [] OTHER -> ""

HasSensor(t) == t.unit # "" /\ MmPerUnit(t.unit) # "" /\ Known(t.xres) /\ Known(t.yres)
Sensor(t) == <<(MmPerUnit(t.unit) ** t.size[1]) // t.xres, (MmPerUnit(t.unit) ** t.size[2]) // t.yres>>
HasDewarp(t) == Len(t.dewarp) = 9 /\ (\E i \in 1..9 : ~REq(t.dewarp[i], 0)) /\ Known(t.tagw) /\ Known(t.tagh)

(* interior parameters, or no type *)
Interior(t) ==
  IF HasDewarp(t)
  THEN LET m == RMax(t.tagw, t.tagh)
       IN [type |-> "brown", focal |-> <<t.dewarp[1], t.dewarp[2]>>, sensor |-> <<t.tagw, t.tagh>>, c |-> <<t.dewarp[3] // m, t.dewarp[4] // m>>,
           dist |-> [k1 |-> t.dewarp[5], k2 |-> t.dewarp[6], p1 |-> t.dewarp[7], p2 |-> t.dewarp[8], k3 |-> t.dewarp[9]]]
  ELSE IF Known(t.focal) /\ HasSensor(t) THEN [type |-> "pinhole", focal |-> <<t.focal, t.focal>>, sensor |-> Sensor(t), c |-> <<0, 0>>, dist |-> <<>>]
  ELSE IF Known(t.f35)
  THEN [type |-> "pinhole", c |-> <<0, 0>>, dist |-> <<>>,
        \* the 35 mm equivalent relates to the 36 mm width of a film frame
        focal |-> IF HasSensor(t) THEN LET f == (RMax(Sensor(t)[1], Sensor(t)[2]) ** t.f35) // 36 IN <<f, f>> ELSE <<t.f35 // 36, t.f35 // 36>>,
        sensor |-> IF HasSensor(t) THEN Sensor(t) ELSE <<>>]
  ELSE [type |-> "none"]

(* latitude, longitude, altitude, or <<>> *)
Decimal(dms, ref) == LET v == (((dms[3] // 60) ++ dms[2]) // 60) ++ dms[1] IN IF ref \in {"N", "E"} THEN v ELSE RNeg(v)
Lla(t) ==
  IF All(t.xlla) THEN t.xlla
  ELSE IF Len(t.lat) = 3 /\ Len(t.lon) = 3 /\ t.latref # "" /\ t.lonref # "" /\ t.alt # ""
  THEN <<Decimal(t.lat, t.latref), Decimal(t.lon, t.lonref), IF t.altref = "0x01" THEN RNeg(t.alt) ELSE t.alt>>
  ELSE <<>>
(* roll, pitch, yaw of the camera, or <<>>; the pitch of a DJI gimbal is from the horizontal *)
Rpy(t) ==
  IF All(t.dji) THEN <<t.dji[1], t.dji[2] ++ 90, t.dji[3]>>
  ELSE IF All(t.sensefly) THEN t.sensefly
  ELSE IF All(t.pix4d) THEN t.pix4d
  ELSE <<>>
HasInterior(t) == Interior(t).type # "none"
HasExterior(t) == Lla(t) # <<>> /\ Rpy(t) # <<>>
=============================================================================
