------------------------------ MODULE C17Trace ------------------------------
EXTENDS PanJudge
C17Failing(run) ==
  IF ~Completed(run) THEN {"completes"}
  ELSE LET c == run.case  o == run.obs IN
       IF ~Enough(c, o) THEN {} ELSE
       IF Get(o, "error", "") # "" THEN
          \* weights can not be found
          Cl("sharpens", TheModel(c, o).w = <<>>)
       ELSE IF o.shape # Shape(c) THEN {"shape"} ELSE ValuesFailing(c, o)
=============================================================================
