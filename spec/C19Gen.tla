------------------------------- MODULE C19Gen -------------------------------
(* RPC models, GCPs that are off by corrections of several kinds, and ways to refine. *)
EXTENDS Gen

\* normalised positions of GCPs
Layouts == <<
  << <<"-0.5", "-0.5", "0">>, <<"0.5", "-0.4", "0.1">>, <<"0.4", "0.5", "-0.1">>, <<"-0.45", "0.55", "0.05">>, <<"0.05", "0", "0">>, <<"0.7", "0.2", "-0.3">> >>,
  << <<"0.1", "-0.8", "0.5">>, <<"0.6", "0.75", "-0.5">>, <<"-0.9", "0.1", "0.2">> >>,
  << <<"0.3", "-0.2", "0">>, <<"-0.6", "0.4", "0">> >>,
  << <<"-0.2", "0.35", "0.4">> >>,
  << <<"0.2", "-0.2", "0.1">>, <<"0.2", "-0.2", "0.1">>, <<"-0.4", "0.6", "-0.1">> >>,
  << <<"-0.9", "-0.9", "0.1">>, <<"-0.3", "-0.8", "0">>, <<"0.35", "-0.85", "0.2">>, <<"0.9", "-0.9", "0.4">>, <<"-0.85", "-0.1", "0">>, <<"-0.2", "0.1", "-0.4">>,
     <<"0.4", "0", "0.15">>, <<"0.95", "0.15", "0.3">>, <<"-0.9", "0.8", "-0.2">>, <<"-0.35", "0.9", "0">>, <<"0.3", "0.85", "0.9">>, <<"0.8", "0.9", "-0.9">> >> >>
\* image coordinates of a GCP: scale * (model's coordinates) + shift + noise
Errors == <<
  [scale |-> <<"1", "1">>, shift |-> <<"2.5", "-1.75">>, noise |-> "0"],
  [scale |-> <<"1.01", "0.98">>, shift |-> <<"-3", "4.5">>, noise |-> "0"],
  [scale |-> <<"1", "1">>, shift |-> <<"0", "0">>, noise |-> "0"],
  [scale |-> <<"1.002", "1.001">>, shift |-> <<"1", "1">>, noise |-> "0.8"],
  [scale |-> <<"0.9", "1.2">>, shift |-> <<"10", "-20">>, noise |-> "3"],
  [scale |-> <<"1", "1">>, shift |-> <<"1.5", "0.5">>, noise |-> "0.2", outlier |-> "25"] >>
Methods == <<"shift", "shift-drift", "default">>
Ways == <<"dict", "rpc", "collection", "file", "images", "enum", "twice">>
All == FlattenSeq([l \in 1..6 |-> FlattenSeq([e \in 1..6 |-> FlattenSeq([m \in 1..3 |-> [w \in 1..7 |->
  [model |-> 1 + ((l + e + m + w) % 4), layout |-> l, error |-> e, method |-> Methods[m], way |-> Ways[w]]]])])])
Case(c, k) == [name |-> c.way \o "-" \o c.method \o "-" \o ToString(c.layout) \o ToString(c.error), model |-> c.model, method |-> c.method, way |-> c.way,
               points |-> Layouts[c.layout], error |-> Errors[c.error], seed |-> k, few |-> c.layout = 4 /\ c.method = "shift-drift"]
Few == [k \in 1..4 |-> [name |-> "few-" \o ToString(k), model |-> k, method |-> <<"shift", "shift-drift", "shift-drift", "default">>[k], way |-> "dict",
        points |-> IF k \in {2, 3} THEN Layouts[4] ELSE <<>>, error |-> Errors[1], seed |-> k, few |-> TRUE]]
GenCases == Few \o (LET s == All IN [k \in 1..Len(s) |-> Case(s[k], k)])
=============================================================================
