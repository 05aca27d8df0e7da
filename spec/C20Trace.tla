------------------------------ MODULE C20Trace ------------------------------
EXTENDS Judge, Cli
C20Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE LET c == run.case  o == run.obs IN
    Cl("exit-code", o.exit = ExitCode(c))
    \cup Cl("no-traceback", o.exit = 0 \/ ~o.traceback)
    \cup Cl("usage-message", o.exit = 0 \/ o.message)
    \cup Cl("same-as-alone", GoodOuts(c, o.outs))
    \* nothing else is written, but exported parameters
    \cup Cl("nothing-else", o.extra = 0)
    \cup (IF Job(c.opts).export THEN Cl("exported", IF ExitCode(c) = 0 THEN o.exported = "alone" ELSE o.exported = c.exported) ELSE {})
=============================================================================
