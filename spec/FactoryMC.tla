----------------------------- MODULE FactoryMC ------------------------------
EXTENDS Factory
N(a, b) == [name |-> a, stem |-> b]
MCNames == {N("im0.tif", "im0"), N("im0.jpg", "im0"), N("im1.tif", "im1"), N("a.b", "a"), N("none.tif", "none")}
MCKeys == <<N("im0.tif", "im0"), N("im0", "im0"), N("im1", "im1"), N("a.b.tif", "a.b")>>
MCGcps == {<<[key |-> "im0.tif", corr |-> 1]>>, <<[key |-> "im0", corr |-> 2]>>, <<[key |-> "im1", corr |-> 1], [key |-> "a.b", corr |-> 2]>>, <<[key |-> "other", corr |-> 3]>>, <<>>, <<[key |-> "im1", corr |-> 2], [key |-> "a.b", corr |-> Useless]>>, <<[key |-> "other", corr |-> Useless], [key |-> "im0", corr |-> 1]>>}
=============================================================================
