------------------------------ MODULE C09Trace ------------------------------
(***************************************************************************)
(* Every projection call recorded from the implementation follows the      *)
(* camera model of Camera.tla.                                             *)
(***************************************************************************)
EXTENDS Judge, Camera

(* world to pixel: each column is the projection of its own point *)
ForwardOk(proj(_), c, tol) ==
  /\ Len(c.out) = Len(c.in)
  /\ \A n \in 1..Len(c.in) :
       IF \E k \in 1..3 : RIsNaN(c.in[n][k]) THEN RIsNaN(c.out[n][1]) \/ RIsNaN(c.out[n][2])
       ELSE LET ji == proj(c.in[n]) IN RNear(ji[1], c.out[n][1], tol) /\ RNear(ji[2], c.out[n][2], tol)
(* pixel to world: the point has the given height, and projects back to the pixel *)
InverseOk(proj(_), c, tol) ==
  LET n == IF Len(c.in) >= Len(c.z) THEN Len(c.in) ELSE Len(c.z)
      at(s, k) == IF Len(s) = 1 THEN s[1] ELSE s[k]
  IN /\ Len(c.out) = n
     /\ \A k \in 1..n :
          LET ji == at(c.in, k)  z == at(c.z, k) IN
          IF RIsNaN(ji[1]) \/ RIsNaN(ji[2]) \/ RIsNaN(z)
          THEN \E m \in 1..3 : RIsNaN(c.out[k][m])
          ELSE LET b == proj(c.geo[k]) IN
               /\ RNear(b[1], ji[1], tol) /\ RNear(b[2], ji[2], tol)
               /\ RNear(c.out[k][3], z, RMax("1e-6", RAbs(z) ** "1e-9"))

(* points of the boundary of the image, among them its corners *)
EdgeOk(c) ==
  LET on(v, m) == RNear(v, 0, "1e-9") \/ RNear(v, m, "1e-9")
      w == c.size[1] - 1  h == c.size[2] - 1
  IN /\ \A n \in 1..Len(c.out) : LET j == c.out[n][1]  i == c.out[n][2] IN
          /\ on(j, w) \/ on(i, h)
          /\ R("-1e-9") \preceq j /\ j \preceq (R(w) ++ "1e-9") /\ R("-1e-9") \preceq i /\ i \preceq (R(h) ++ "1e-9")
     /\ \A j \in {0, w}, i \in {0, h} : \E n \in 1..Len(c.out) : RNear(c.out[n][1], j, "1e-9") /\ RNear(c.out[n][2], i, "1e-9")

CallFailing(proj(_), c, ftol, itol) ==
  CASE c.call = "w2p" ->
        IF c.outcome # "ok" THEN {"projects:" \o c.what}
        ELSE Cl("forward:" \o c.what, ForwardOk(proj, c, ftol)) \cup Cl("arguments-unmodified:" \o c.what, c.unmodified)
    [] c.call = "p2w" ->
        IF c.outcome # "ok" THEN {"back-projects:" \o c.what}
        ELSE Cl("inverse:" \o c.what, InverseOk(proj, c, itol)) \cup Cl("arguments-unmodified:" \o c.what, c.unmodified)
    [] c.call = "edge" -> Cl("on-image-edge:" \o c.what, ~c.distort \/ EdgeOk(c))
    [] c.call = "clipped" -> Cl("at-camera-height:" \o c.what, \A n \in 1..Len(c.out) : \A k \in 1..3 : RNear(c.out[n][k], c.pos[k], "1e-6"))
    [] c.call = "reject" -> Cl("rejects:" \o c.what, c.outcome = "error")

C09Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE LET cs == run.obs.calls IN
    IF run.case.kind = "rpc"
    THEN LET proj(w) == RpcProject(run.case.rpc, w) IN
         UNION {CallFailing(proj, [cs[k] EXCEPT !.in = IF cs[k].call = "w2p" THEN cs[k].geo ELSE cs[k].in], "1e-5",
                              \* GDAL iterates to 0.1 pixels, unless its option says otherwise
                              IF run.case.tight THEN "0.002" ELSE "0.105") : k \in 1..Len(cs)}
    ELSE LET p == Prepared(run.case.cam)
             proj(w) == ProjectPrepared(p, w)
             itol == IF run.case.cam.distort /\ run.case.cam.type # "pinhole" THEN "0.02" ELSE "1e-4"
         IN UNION {CallFailing(proj, cs[k], IF run.case.cam.distort THEN "1e-5" ELSE "0.02", IF run.case.cam.distort THEN itol ELSE "0.02") : k \in 1..Len(cs)}
=============================================================================
