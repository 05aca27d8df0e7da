----------------------------- MODULE ReadersMC ------------------------------
EXTENDS Readers
MCKinds == UNION {[1..n -> {"ok", "missing", "broken"}] : n \in 0..4}
=============================================================================
