--------------------------------- MODULE Fit ---------------------------------
(***************************************************************************)
(* Fitting exterior parameters to ground control points (GCPs).  A         *)
(* collection has one interior, and for each image a set of GCPs: world    *)
(* points with the pixels at which a pose sees them.                       *)
(***************************************************************************)
EXTENDS Place

\* GCPs of a pose: the pixels of world points
Seen(p, points) == [k \in DOMAIN points |-> [xyz |-> points[k], ji |-> ProjectPrepared(p, points[k])]]
\* world points on the rays of pixels, at heights
OnRays(p, jis, zs) == [k \in DOMAIN jis |-> BackProjectPrepared(p, jis[k], zs[k])]
\* a fitted pose (position, and angles in radians), as a camera like cam
Posed(cam, xyz, opk) == [cam |-> [cam EXCEPT !.xyz = xyz], Rt |-> Transpose(ImageRotation(opk)), K |-> Intrinsic(cam), Ku |-> Intrinsic(cam)]
\* the pose explains the GCPs: they are in front of the camera, and seen at their pixels
Explains(p, gcps, tol) == \A k \in DOMAIN gcps :
  LET v == ToImage(p, gcps[k].xyz)  ji == ProjectPrepared(p, gcps[k].xyz) IN 0 \prec v[3] /\ RNear(ji[1], gcps[k].ji[1], tol) /\ RNear(ji[2], gcps[k].ji[2], tol)
\* enough GCPs for the pose to be determined: with three or four, other poses (nearly) explain them too
Determined(gcps) == Len(gcps) >= 5
Enough(images) == \A i \in DOMAIN images : Len(images[i].gcps) >= 3
=============================================================================
