------------------------------- MODULE Refine -------------------------------
(***************************************************************************)
(* Refinement of an RPC model with GCPs: a correction of the pixel         *)
(* coordinates, found for each axis from the coordinates b of the GCPs     *)
(* with the original model, and those g of the GCPs in the image.          *)
(***************************************************************************)
EXTENDS Real64, Integers, TLC

Mean(s) == RSum(s) // Len(s)
Var(s) == LET m == Mean(s) IN RSum([i \in DOMAIN s |-> (s[i] -- m) ** (s[i] -- m)])
Cov(s, t) == LET m == Mean(s) k == Mean(t) IN RSum([i \in DOMAIN s |-> (s[i] -- m) ** (t[i] -- k)])

(* <<scale, shift>>: the least squares correction g ~ scale * b + shift *)
Correction(method, b, g) ==
  IF method = "shift" THEN <<R(1), Mean(g) -- Mean(b)>>
  ELSE LET m == Cov(b, g) // Var(b) IN <<m, Mean(g) -- (m ** Mean(b))>>
Corrected(c, v) == (c[1] ** v) ++ c[2]
MinGcps(method) == IF method = "shift" THEN 1 ELSE 2

(* what makes it right, for TLC to check on small data *)
Sse(c, b, g) == RSum([i \in DOMAIN b |-> LET r == g[i] -- Corrected(c, b[i]) IN r ** r])
Best(method, b, g) ==
  LET c == Correction(method, b, g) IN
  \A ds \in {-1, 0, 1}, dc \in {-1, 0, 1} :
     (method = "shift" => ds = 0) => Sse(c, b, g) \preceq (Sse(<<c[1] ++ (ds // 64), c[2] ++ (dc // 16)>>, b, g) ++ "0.0000001")
Exact(m, k, b) == LET c == Correction("shift-drift", b, [i \in DOMAIN b |-> (m ** b[i]) ++ k]) IN RNear(c[1], m, "0.0000001") /\ RNear(c[2], k, "0.0000001")

VARIABLE data
Init == \E n \in 2..4 : \E b \in [1..n -> 0..3], g \in [1..n -> 0..2] : data = [b |-> b, g |-> g]
Next == FALSE /\ data' = data
Spec == Init /\ [][Next]_data
Spread(b) == \E i, j \in DOMAIN b : b[i] # b[j]
LeastSquares == Best("shift", data.b, data.g) /\ (Spread(data.b) => Best("shift-drift", data.b, data.g))
ZeroWhenExact == Spread(data.b) => \A m \in {"0.5", "1", "2.25"}, k \in {"-3", "0", "0.125"} : Exact(m, k, data.b)
MeanResidualZero == \A m \in {"shift", "shift-drift"} : (m = "shift" \/ Spread(data.b)) =>
   LET c == Correction(m, data.b, data.g) IN RNear(RSum([i \in DOMAIN data.b |-> data.g[i] -- Corrected(c, data.b[i])]), 0, "0.0000001")
=============================================================================
