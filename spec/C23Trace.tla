------------------------------ MODULE C23Trace ------------------------------
EXTENDS Judge, Fit
CamOf(c) == [type |-> c.type, size |-> c.in.size, focal |-> c.in.focal, sensor |-> c.in.sensor, c |-> c.in.c, scalar |-> c.in.scalar, dist |-> c.dist,
             xyz |-> <<0, 0, 0>>, opk |-> <<0, 0, 0>>, distort |-> TRUE, alpha |-> "1"]
Tol == "0.005"
ImageFailing(c, im, f) ==
  Cl("camera-id", f.camera = "first")
  \cup Cl("explains", Determined(im.gcps) => Explains(Posed(CamOf(c), f.xyz, f.opk), im.gcps, Tol))
  \cup Cl("pose", Determined(im.gcps) => \A a \in 1..3 : RNear(f.xyz[a], im.xyz[a], "0.1"))
C23Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE LET c == run.case  o == run.obs IN
    Cl("inputs-unchanged", o.unchanged)
    \cup (IF ~Enough(c.images) THEN Cl("too-few", o.error = "ValueError")
          ELSE IF o.error # "" THEN {"fits"}
          ELSE IF [i \in DOMAIN o.images |-> o.images[i].name] # [i \in DOMAIN c.images |-> c.images[i].name] THEN {"every-image"}
          ELSE UNION {ImageFailing(c, c.images[i], o.images[i]) : i \in DOMAIN c.images}
               \* and the real camera with the fitted parameters agrees
               \cup Cl("camera-agrees", \A i \in {i \in DOMAIN c.images : Determined(c.images[i].gcps)} : \A k \in DOMAIN c.images[i].gcps :
                       \A a \in 1..2 : RNear(o.images[i].ji[k][a], c.images[i].gcps[k].ji[a], Tol)))
=============================================================================
