------------------------------- MODULE C21Gen -------------------------------
(* Single calls with every kind of handle in every role, open and closed, with every fault; and histories that share a pool of handles. *)
EXTENDS Gen

H == INSTANCE Handles WITH MaxSteps <- 0, ModelOps <- {}, ModelKinds <- {}, pool <- done, own <- done, pc <- done, call <- done, pos <- done, n <- done

Call(op, args, f) == [kind |-> "call", op |-> op, args |-> args, fault |-> f]
Toggle(role, kind) == [kind |-> "toggle", role |-> role, handle |-> kind]
Base(op) == [k \in 1..Len(H!RolesOf(op)) |-> "path"]
KindSeq(role) == SetToSeq(H!KindsOf(H!TypeOf(role)))
Singles ==
  FlattenSeq([o \in 1..Len(H!Ops) |->
    LET op == H!Ops[o]  roles == H!RolesOf(op) IN
    FlattenSeq([k \in 1..Len(roles) |->
      [q \in 1..Len(KindSeq(roles[k])) |->
        LET kind == KindSeq(roles[k])[q]
            args == [Base(op) EXCEPT ![k] = kind]
            faults == SetToSeq(H!FaultsOf(op) \ {"none"})
        IN [name |-> op \o "-" \o roles[k] \o "-" \o kind,
            steps |-> << Call(op, args, "none") >>
                      \o [f \in 1..Len(faults) |-> Call(op, args, faults[f])]
                      \o << Call(op, args, "none") >>
                      \o (IF H!Closable(kind) THEN << Toggle(roles[k], kind), Call(op, args, "none"), Toggle(roles[k], kind), Call(op, args, "none") >> ELSE <<>>)]]])])
Step(h, k) ==
  LET q == 97 * h + 13 * k
      op == Pick(H!Ops, Rnd(q, Len(H!Ops)))
      roles == H!RolesOf(op)
      fs == SetToSeq(H!FaultsOf(op))
      kind(r, j) == IF Rnd(q + j, 4) = 0 THEN Pick(KindSeq(r), Rnd(q + 5 + j, 99))
                    ELSE Pick(SelectSeq(KindSeq(r), LAMBDA x : H!RightMode(x)), Rnd(q + 5 + j, 99))
      tr == roles[1 + Rnd(q + 1, Len(roles))]
      tk == SelectSeq(KindSeq(tr), LAMBDA x : H!Closable(x) /\ H!RightMode(x))
  IN IF Rnd(q + 2, 6) = 0 /\ tk # <<>> THEN Toggle(tr, Pick(tk, Rnd(q + 3, 99)))
     ELSE Call(op, [j \in 1..Len(roles) |-> kind(roles[j], 10 * j)], IF Rnd(q + 4, 3) = 0 THEN Pick(fs, Rnd(q + 8, 99)) ELSE "none")
GenCases ==
  LET cs == Singles \o [h \in 1..(IF Thorough THEN 300 ELSE 30) |-> [name |-> "history-" \o ToString(h), steps |-> [k \in 1..12 |-> Step(h, k)]]]
      \* FrameCameras finds the format of a file from its name, which a StringIO does not have
      named(c) == \A k \in DOMAIN c.steps : c.steps[k].kind = "call" /\ c.steps[k].op = "frame" => "stringio" \notin Range(c.steps[k].args)
      ns == SelectSeq(cs, named)
  IN [k \in 1..Len(ns) |-> ns[k] @@ [roles |-> [op \in Range(H!Ops) |-> H!RolesOf(op)]]]
=============================================================================
