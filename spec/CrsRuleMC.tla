----------------------------- MODULE CrsRuleMC ------------------------------
EXTENDS CrsRule
MCRequests == [source : Sources, user : Kinds, side : Kinds, lla : Kinds]
=============================================================================
