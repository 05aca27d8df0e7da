----------------------------- MODULE CameraHist -----------------------------
(***************************************************************************)
(* A camera over time.  Its parameters are a pose (or none), the distort   *)
(* setting and alpha.  The camera derives things from these (intrinsics    *)
(* of the undistorted image, undistortion maps) when they are needed, and  *)
(* keeps them: a query is answered from what was kept.  The camera is      *)
(* right if every answer is the one of a new camera with the current       *)
(* parameters.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NPoses, NAlphas, MaxSteps, NCams

(* which parameters queries depend on *)
Queries == {"project", "back-project", "pixel-boundary", "world-boundary", "surface-boundary", "read", "remap", "position", "ortho"}
NeedsPose == {"project", "back-project", "world-boundary", "surface-boundary", "remap", "ortho"}
NeedsMaps == {"read", "ortho"}      \* of the undistorted image, if not distort
NewParams(a, d) == [pose |-> 0, alpha |-> a, distort |-> d]

(* the state of a camera after an action on it *)
After(p, act) ==
  CASE act.kind = "update" -> [p EXCEPT !.pose = act.value]
    [] act.kind = "distort" -> [p EXCEPT !.distort = act.value = 1]
    [] act.kind = "alpha" -> [p EXCEPT !.alpha = act.value]
    [] OTHER -> p            \* queries, and updates and queries that fail

Actions ==
  [kind : {"update"}, value : 1..NPoses] \cup [kind : {"alpha"}, value : 1..NAlphas] \cup [kind : {"distort"}, value : 0..1]
  \cup [kind : {"query"}, value : Queries] \cup [kind : {"bad-update"}, value : {"-"}] \cup [kind : {"bad-query"}, value : Queries]

(* what a new camera answers *)
Fresh(p, q) == IF q \in NeedsPose /\ p.pose = 0 THEN <<"error">>
               ELSE <<q, p.pose, p.distort, IF p.distort THEN 0 ELSE p.alpha>>

VARIABLES param, und, maps, answer, n
vars == <<param, und, maps, answer, n>>
Cams == 1..NCams
Init == /\ \E a \in 1..NAlphas, d \in BOOLEAN : param = [c \in Cams |-> NewParams(a, d)]
        /\ und = [c \in Cams |-> param[c].alpha]     \* intrinsics of the undistorted image: the alpha they are for
        /\ maps = [c \in Cams |-> 0]                 \* undistortion maps: none (0), or the alpha they are for
        /\ answer = [q |-> "-", given |-> <<>>, cam |-> 1] /\ n = 0
Answer(c, q) ==
  IF q \in NeedsPose /\ param[c].pose = 0 THEN <<"error">>
  ELSE LET a == IF param[c].distort THEN 0 ELSE IF q \in NeedsMaps /\ maps[c] # 0 THEN maps[c] ELSE und[c]
       IN <<q, param[c].pose, param[c].distort, a>>
Do(c, act) ==
  /\ param' = [param EXCEPT ![c] = After(param[c], act)]
  /\ und' = IF act.kind = "alpha" /\ act.value # param[c].alpha THEN [und EXCEPT ![c] = act.value] ELSE und
  /\ maps' = IF act.kind = "alpha" /\ act.value # param[c].alpha THEN [maps EXCEPT ![c] = 0]
             ELSE IF act.kind = "query" /\ act.value \in NeedsMaps /\ ~param[c].distort /\ Answer(c, act.value) # <<"error">> /\ maps[c] = 0
             THEN [maps EXCEPT ![c] = und[c]] ELSE maps
  /\ answer' = IF act.kind = "query" THEN [q |-> act.value, given |-> Answer(c, act.value), cam |-> c] ELSE answer
  /\ n' = n + 1
Next == n < MaxSteps /\ \E c \in Cams, act \in Actions : Do(c, act)
Spec == Init /\ [][Next]_vars

AnswersAreFresh == [][answer' # answer => answer'.given = Fresh(param[answer'.cam], answer'.q)]_vars
KeptIsCurrent == \A c \in Cams : und[c] = param[c].alpha /\ maps[c] \in {0, param[c].alpha}
=============================================================================
