----------------------------- MODULE ProfileMC ------------------------------
(* The decision table of Profile is total and consistent. *)
EXTENDS Profile
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================
