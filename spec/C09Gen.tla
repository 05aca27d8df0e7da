------------------------------- MODULE C09Gen -------------------------------
EXTENDS Gen, CameraCases

(* every camera type, with each interior, distortion, pose and setting at least once *)
FrameCases ==
  LET combos == FlattenSeq([t \in 1..4 |->
        FlattenSeq([s \in 1..4 |-> FlattenSeq([d \in 1..Len(Dists(FrameTypes[t])) |->
          [p \in 1..Len(Poses) |->
            [kind |-> "frame",
             cam |-> Frame(FrameTypes[t], Pick(Interiors, s + d + p + t), Dists(FrameTypes[t])[d], Poses[p], Settings[s]),
             ctor |-> Pick(<<"pose", "update">>, s + d + p)]]])])])
  IN combos
RpcCases == FlattenSeq([r \in 1..2 |-> FlattenSeq([c \in 1..2 |-> [tight \in 1..2 |->
    [kind |-> "rpc", rpc |-> Rpcs[r], size |-> RpcSizes[r], crs |-> RpcCrss[r][c], tight |-> tight = 2]]])])

OddCases == FlattenSeq([t \in 1..4 |-> FlattenSeq([d \in 1..Len(OddDists(FrameTypes[t])) |-> [s \in 1..(IF Thorough THEN 4 ELSE 2) |->
    [kind |-> "frame", cam |-> Frame(FrameTypes[t], Pick(Interiors, s + d), OddDists(FrameTypes[t])[d], Pick(Poses, d + 2 * s), Pick(Settings, 3 * s + (IF Thorough THEN 0 ELSE d))), ctor |-> Pick(<<"pose", "update">>, d)]]])])
GenCases == FrameCases \o OddCases \o RpcCases
=============================================================================
