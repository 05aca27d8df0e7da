------------------------------ MODULE C18Trace ------------------------------
EXTENDS PanJudge
\* requests that can not be satisfied
BadIndex(c) == \/ c.panindex < 1 \/ c.panindex > c.panbands
               \/ \E i \in DOMAIN c.bands : c.bands[i] < 1 \/ c.bands[i] > c.nb + (IF c.msmask = "alpha" THEN 1 ELSE 0)
BadWeights(c) == c.weights # <<>> /\ (\/ Len(c.weights) # (IF c.bands = <<>> THEN c.nb ELSE Len(c.bands))
                                      \/ \E i \in DOMAIN c.weights : ~(0 \preceq c.weights[i]) \/ ~(c.weights[i] \prec "1e300")
                                      \/ \A i \in DOMAIN c.weights : REq(c.weights[i], 0))
Rejected(c) == ~Overlap(c.g) \/ ~Finer(c.g) \/ BadIndex(c) \/ BadWeights(c)
C18Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE LET c == run.case  o == run.obs IN
       IF Rejected(c) THEN Cl("rejects", o.error # "") \cup Cl("error-type", o.error # "" => o.orthority) \cup Cl("no-output", ~o.created)
       ELSE IF o.error # "" THEN {"accepts"}
       ELSE IF o.shape # Shape(c) THEN {"shape"} ELSE GridFailing(c, o) \cup ValidFailing(c, o)
=============================================================================
