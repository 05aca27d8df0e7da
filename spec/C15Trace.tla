------------------------------ MODULE C15Trace ------------------------------
(* The CRS that CrsRule resolves, positions in it, and the orientations of Place. *)
EXTENDS Judge, Place

Rule == INSTANCE CrsRule WITH Requests <- {}, req <- bad, at <- bad, crs <- bad

Places(c) == IF c.source = "osfm" THEN <<c.images[1].lla>> ELSE [i \in DOMAIN c.images |-> c.images[i].lla]
CodeOf(c, which) == CASE which = "user" -> c.usercode [] which = "file" -> c.sidecode [] which = "utm" -> UtmCodeAt(Places(c)) [] OTHER -> 0
\* a custom projection has no code: it is compared by the driver
SameCrs(c, o, which) == CASE which = "none" -> o.none [] which # "utm" /\ CodeOf(c, which) = 0 -> o.isgiven [] OTHER -> o.code = CodeOf(c, which)

Rotation(c, im) == CASE c.source \in {"csv-xyz-opk", "csv-lla-opk", "geojson"} -> OpkDegRotation(im.ang)
                     [] c.source = "osfm" -> AaRotation(im.ang)
                     [] OTHER -> RpyRotation(c.proj, im.lla[1], im.lla[2], im.ang)
Position(c, im) ==
  IF c.source \in {"csv-xyz-opk", "csv-xyz-rpy", "geojson"} THEN im.xyz
  ELSE IF c.source = "osfm" THEN LET r == Project2(c.proj, c.images[1].lla[1], c.images[1].lla[2])  d == AaPosition(im.ang, im.t)
                                 IN <<r[1] ++ d[1], r[2] ++ d[2], c.images[1].lla[3] ++ d[3]>>
  ELSE Append(Project2(c.proj, im.lla[1], im.lla[2]), im.lla[3])
Offsets == << <<100, 3, -5>>, <<-100, 4, 6>>, <<7, 100, -2>>, <<-8, -100, 5>>, <<2, 9, 100>>, <<5, -3, -100>> >>
ImageFailing(c, im, o) ==
  LET rot == Rotation(c, im)
      toimage == Transpose(MulMM(rot, <<<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>>>))
      p == Position(c, im)
      at(k) == MulMV(toimage, Offsets[k])
      seen(k) == LET a == at(k) IN R(30) \prec a[3] => /\ RNear(o.ji[k][1], (R(50) ** (a[1] // a[3])) ++ "29.5", "0.0005")
                                                       /\ RNear(o.ji[k][2], (R(50) ** (a[2] // a[3])) ++ "19.5", "0.0005")
  IN Cl("position", \A i \in 1..3 : RNear(o.xyz[i], p[i], "0.0002"))
     \cup Cl("orientation", SameRotation(OpkRotation(o.opk), rot, "0.000002"))
     \cup Cl("view", \A k \in 1..6 : seen(k))
C15Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE
  LET c == run.case  o == run.obs
      which == Rule!Resolve(c)
      judge(w) == IF which \in Rule!Errors THEN Cl(w.way \o "-error", w.error = which)
                  ELSE IF w.error # "" THEN {w.way \o "-reads"} ELSE Cl(w.way \o "-crs", SameCrs(c, w, which))
  IN UNION {judge(o.ways[i]) : i \in DOMAIN o.ways}
     \cup (IF o.export = "" THEN {}
           ELSE IF which \in Rule!Errors \/ which = "none" THEN Cl("export-needs-crs", o.export = "CrsMissingError" \/ which \in Rule!Errors) ELSE Cl("export", o.export = "ok"))
     \cup (IF o.cli.exit = -1 THEN {}
           ELSE IF which \in Rule!Errors \cup {"none"} THEN Cl("cli-error", o.cli.exit = 2)
           ELSE Cl("cli", o.cli.exit = 0) \cup Cl("cli-crs", o.cli.exit = 0 => SameCrs(c, o.cli, which)))
     \cup (IF c.kind = "pose" /\ which \notin Rule!Errors
           THEN IF Len(o.images) # Len(c.images) THEN {"every-image"} ELSE UNION {ImageFailing(c, c.images[i], o.images[i]) : i \in DOMAIN c.images} ELSE {})
=============================================================================
