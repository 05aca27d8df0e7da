------------------------------ MODULE C22Trace ------------------------------
(* A list read together must end as a behaviour of Readers ends. *)
EXTENDS Judge

\* what an image is for this kind of metadata
Bad(k) == k # "ok"
C22Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE
  LET c == run.case  o == run.obs
      n == Len(c.kind)
      failing == {i \in 1..n : Bad(c.kind[i])}
      missing == {i \in 1..n : c.kind[i] = "missing"}
  IN IF failing = {}
     THEN IF o.error # "" THEN {"reads"}
          ELSE Cl("one-entry-per-image-in-order", Len(o.names) = n /\ \A i \in 1..n : o.names[i] = i)
               \cup Cl("as-when-alone", \A i \in DOMAIN o.same : o.same[i])
     ELSE Cl("fails", o.error # "")
          \cup Cl("names-a-failing-image", o.error # "" => \E i \in failing : o.named[i])
          \cup Cl("missing-file", o.error # "" /\ failing = missing => o.error = "FileNotFoundError")
          \cup Cl("missing-iff", o.error = "FileNotFoundError" => missing # {})
          \cup Cl("no-other-named", o.error # "" => \A i \in 1..n \ failing : ~o.named[i])
=============================================================================
