------------------------------- MODULE IntDoc -------------------------------
(***************************************************************************)
(* Files of interior and RPC parameters.                                   *)
(*                                                                         *)
(* A document has a layout and a sequence of cameras; a camera has an ID,  *)
(* a type and a sequence of fields [key, val] with different keys, where   *)
(* val is a sequence of numbers.  The reader takes the fields of a         *)
(* document one by one, and gives a parameter for each, or rejects the     *)
(* document.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Dist(type) == CASE type = "pinhole" -> {}
                [] type = "brown" -> {"k1", "k2", "p1", "p2", "k3"}
                [] type = "fisheye" -> {"k1", "k2", "k3", "k4"}
                [] type = "opencv" -> {"k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4", "tx", "ty"}
                [] OTHER -> {}
FrameTypes == {"pinhole", "brown", "fisheye", "opencv"}
Osfm(layout) == layout \in {"osfm", "reconstruction"}
OsfmType(t) == CASE t \in {"perspective", "simple_radial", "radial", "brown"} -> "brown" [] t = "fisheye" -> "fisheye" [] OTHER -> "none"

RpcNumbers == {"height_off", "height_scale", "lat_off", "lat_scale", "long_off", "long_scale", "line_off", "line_scale", "samp_off", "samp_scale"}
RpcPolynomials == {"line_num_coeff", "line_den_coeff", "samp_num_coeff", "samp_den_coeff"}

(* the camera type of a camera, or "none" *)
TypeOf(layout, cam) == IF layout = "rpc" THEN "rpc"
                       ELSE IF Osfm(layout) THEN OsfmType(cam.type)
                       ELSE IF cam.type \in FrameTypes THEN cam.type ELSE "none"

(* the parameter that a field is for, or "none" *)
ParamOf(layout, type, key) ==
  IF layout = "rpc" THEN (IF key \in RpcNumbers \cup RpcPolynomials \cup {"im_size", "err_bias", "err_rand"} THEN key ELSE "none")
  ELSE IF Osfm(layout)
  THEN CASE key \in {"width", "height"} -> "im_size"
         [] key \in {"focal", "focal_x", "focal_y"} -> "focal_len"
         [] key = "c_x" -> "cx" [] key = "c_y" -> "cy"
         [] key \in Dist(type) -> key
         [] OTHER -> "none"
  ELSE IF key \in {"im_size", "focal_len", "sensor_size", "cx", "cy"} \cup Dist(type) THEN key ELSE "none"

(* sets of fields that a camera must have one of, complete and without fields of the others *)
Required(layout) ==
  IF layout = "rpc" THEN {{{k}} : k \in RpcNumbers \cup RpcPolynomials \cup {"im_size"}}
  ELSE IF Osfm(layout) THEN {{{"width"}}, {{"height"}}, {{"focal"}, {"focal_x", "focal_y"}}}
  ELSE {{{"im_size"}}, {{"focal_len"}}}
Keys(cam) == {cam.fields[i].key : i \in DOMAIN cam.fields}
Meets(keys, alts) == \E a \in alts : a \subseteq keys /\ \A b \in alts : b = a \/ b \cap keys = {}

(* numbers of a parameter that the format lays down *)
Count(layout, key) == CASE key \in {"im_size", "sensor_size"} -> {2} [] key = "focal_len" -> {1, 2} [] key \in RpcPolynomials -> {20} [] OTHER -> {1}

Words == {"abc", "n/a"}                 \* values that are not numbers
Proper(layout, f) == Len(f.val) \in Count(layout, f.key) /\ \A i \in DOMAIN f.val : f.val[i] \notin Words

CamValid(layout, cam) ==
  LET type == TypeOf(layout, cam)
  IN /\ type # "none"
     /\ \A k \in Keys(cam) : ParamOf(layout, type, k) # "none"
     /\ \A alts \in Required(layout) : Meets(Keys(cam), alts)
     /\ \A i \in DOMAIN cam.fields : Proper(layout, cam.fields[i])
Ids(doc) == {doc.cams[i].as : i \in DOMAIN doc.cams}     \* IDs as exterior parameters refer to them
Valid(doc) == /\ \A i \in DOMAIN doc.cams : CamValid(doc.layout, doc.cams[i])
              /\ Cardinality(Ids(doc)) = Len(doc.cams)

Val(cam, key) == cam.fields[CHOOSE i \in DOMAIN cam.fields : cam.fields[i].key = key].val
(* the value of a parameter of a valid camera *)
Value(layout, cam, param) ==
  IF ~Osfm(layout) THEN Val(cam, param)
  ELSE CASE param = "im_size" -> Val(cam, "width") \o Val(cam, "height")
         [] param = "focal_len" -> IF "focal" \in Keys(cam) THEN Val(cam, "focal") ELSE Val(cam, "focal_x") \o Val(cam, "focal_y")
         [] param = "cx" -> Val(cam, "c_x") [] param = "cy" -> Val(cam, "c_y")
         [] OTHER -> Val(cam, param)
Params(layout, cam) == {ParamOf(layout, TypeOf(layout, cam), k) : k \in Keys(cam)}

(***************************************************************************)
(* The reader.                                                             *)
(***************************************************************************)
CONSTANT Docs
VARIABLES doc, left, given, verdict
vars == <<doc, left, given, verdict>>
Init == /\ doc \in Docs
        /\ left = UNION {{<<i, k>> : k \in Keys(doc.cams[i])} : i \in DOMAIN doc.cams}
        /\ given = {} /\ verdict = "reading"
Reject == verdict' = "rejected" /\ given' = {} /\ UNCHANGED <<doc, left>>
Check == /\ verdict = "reading"
         /\ IF \E i \in DOMAIN doc.cams : TypeOf(doc.layout, doc.cams[i]) = "none" THEN Reject
            ELSE IF Cardinality(Ids(doc)) # Len(doc.cams) THEN Reject
            ELSE IF \E i \in DOMAIN doc.cams : \E alts \in Required(doc.layout) : ~Meets(Keys(doc.cams[i]), alts) THEN Reject
            ELSE verdict' = "taking" /\ UNCHANGED <<doc, left, given>>
Take == /\ verdict = "taking" /\ left # {}
        /\ \E f \in left :
             LET p == ParamOf(doc.layout, TypeOf(doc.layout, doc.cams[f[1]]), f[2])
             IN IF p = "none" \/ \E i \in DOMAIN doc.cams[f[1]].fields : doc.cams[f[1]].fields[i].key = f[2] /\ ~Proper(doc.layout, doc.cams[f[1]].fields[i]) THEN Reject
                ELSE given' = given \cup {<<doc.cams[f[1]].as, p, f[2], Val(doc.cams[f[1]], f[2])>>} /\ left' = left \ {f} /\ UNCHANGED <<doc, verdict>>
Finish == verdict = "taking" /\ left = {} /\ verdict' = "read" /\ UNCHANGED <<doc, left, given>>
Next == Check \/ Take \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NothingDropped == verdict = "read" =>
  \A i \in DOMAIN doc.cams : \A k \in Keys(doc.cams[i]) : \E g \in given : g[1] = doc.cams[i].as /\ g[3] = k /\ g[4] = Val(doc.cams[i], k)
NothingInvented == \A g \in given : \E i \in DOMAIN doc.cams : doc.cams[i].as = g[1] /\ g[3] \in Keys(doc.cams[i])
RejectedIff == verdict \in {"read", "rejected"} => ((verdict = "read") <=> Valid(doc))
Decides == <>(verdict \in {"read", "rejected"})
=============================================================================
