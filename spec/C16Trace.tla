------------------------------ MODULE C16Trace ------------------------------
(* Parameters read from tags must be those of Exif, for each image by its own tags. *)
EXTENDS Judge, Exif

Near(a, b) == RNear(a, b, RMax("1e-12", RAbs(b) ** "1e-12"))
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i])
Spread(v) == IF Len(v) = 1 THEN <<v[1], v[1]>> ELSE v
InteriorFailing(t, g) ==
  LET w == Interior(t)
      dist == IF w.type = "brown" THEN <<w.dist.k1, w.dist.k2, w.dist.p1, w.dist.p2, w.dist.k3>> ELSE <<>>
  IN Cl("camera-type", g.type = w.type) \cup Cl("image-size", SameSeq(g.size, t.size)) \cup Cl("focal-length", SameSeq(Spread(g.focal), w.focal))
     \cup Cl("sensor-size", SameSeq(g.sensor, w.sensor)) \cup Cl("principal-point", SameSeq(g.c, w.c)) \cup Cl("distortion", SameSeq(g.dist, dist))
Proj(code) == UtmOf(code % 100, code > 32700)
ExteriorFailing(t, g, code) ==
  LET lla == Lla(t)
      p == Project2(Proj(code), lla[1], lla[2])
  IN Cl("position", RNear(g.xyz[1], p[1], "0.0005") /\ RNear(g.xyz[2], p[2], "0.0005") /\ RNear(g.xyz[3], lla[3], "0.00001"))
     \cup Cl("orientation", SameRotation(OpkRotation(g.opk), RpyRotation(Proj(code), lla[1], lla[2], Rpy(t)), "0.000003"))
C16Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE
  LET ts == run.case.images  o == run.obs
      n == Len(ts)
      int == \A i \in 1..n : HasInterior(ts[i])
      ext == \A i \in 1..n : HasExterior(ts[i])
      located == \A i \in 1..n : Lla(ts[i]) # <<>>
      places == [i \in 1..n |-> Lla(ts[i])]
  IN \* each image alone
     UNION {IF ~HasInterior(ts[i]) THEN Cl("alone-error", o.alone[i].error = "ParamError") ELSE IF o.alone[i].error # "" THEN {"alone-reads"} ELSE InteriorFailing(ts[i], o.alone[i]) : i \in 1..n}
     \* the reader with a given CRS
     \cup (IF ~int THEN Cl("interior-error", o.int = "ParamError") ELSE IF o.int # "" THEN {"interior-reads"} ELSE {})
     \cup (IF ~ext THEN Cl("exterior-error", o.ext = "ParamError") ELSE IF o.ext # "" THEN {"exterior-reads"}
           ELSE UNION {ExteriorFailing(ts[i], o.images[i], o.code) : i \in 1..n}
                \cup Cl("image-order", \A i \in 1..n : o.order[i] = i))
     \cup (IF ~int \/ ~ext \/ o.int # "" \/ o.ext # "" THEN {}
           ELSE Cl("refers-to-camera", \A i \in 1..n : o.images[i].found)
                \cup UNION {IF o.images[i].found THEN InteriorFailing(ts[i], o.images[i]) ELSE {} : i \in 1..n})
     \* the collection of cameras, in its own CRS
     \cup (IF ~(int /\ ext) THEN Cl("collection-error", o.all.error = "ParamError") ELSE IF o.all.error # "" THEN {"collection-reads"}
           ELSE Cl("utm-zone", o.all.code = UtmCodeAt(places)) \cup Cl("projects", o.all.projects))
=============================================================================
