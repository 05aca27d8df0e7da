----------------------------- MODULE PanStatsMC -----------------------------
EXTENDS PanStats
MCPixels == <<<<3, 1>>, <<0, 4>>, <<5, 5>>, <<2, 7>>>>
MCTilings == {<<f, k>> : k \in {3}, f \in [1..4 -> 1..3]}
=============================================================================
