--------------------------------- MODULE Csv --------------------------------
(***************************************************************************)
(* CSV tables of exterior parameters.                                      *)
(*                                                                         *)
(* A table is a sequence of rows, one for each image, with a value for     *)
(* each field.  A layout says how the table is laid out as a document: a   *)
(* document has a line for each row, and one for the header if there is    *)
(* one; a line is a sequence of cells.  The reader consumes a document     *)
(* line by line.  What it gives must not depend on the layout.             *)
(* (Delimiters, quotes and line terminators only separate the cells; the   *)
(* driver makes the text of a document from its cells.)                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Legacy == <<"filename", "x", "y", "z", "omega", "phi", "kappa">>
Xyz == {"x", "y", "z"}
Lla == {"latitude", "longitude", "altitude"}
Opk == {"omega", "phi", "kappa"}
Rpy == {"roll", "pitch", "yaw"}
Known == {"filename", "camera"} \cup Xyz \cup Lla \cup Opk \cup Rpy
Ignored == {"note", "accuracy"}           \* examples of other fields

(* a set of fields describes exterior parameters *)
Sufficient(fields) == /\ "filename" \in fields
                      /\ Xyz \subseteq fields \/ Lla \subseteq fields
                      /\ Opk \subseteq fields \/ Rpy \subseteq fields

(* the document of a table: fields in the given order; named: "header", "fieldnames", "both" or "legacy" *)
Document(table, order, named) ==
  [header |-> IF named \in {"header", "both"} THEN order ELSE <<>>,
   names |-> IF named \in {"fieldnames", "both"} THEN order ELSE <<>>,
   rows |-> [r \in DOMAIN table |-> [k \in DOMAIN order |-> IF order[k] \in DOMAIN table[r] THEN table[r][order[k]] ELSE "7.5"]]]

(* the fields of the cells of a document: given by the user, else by the header, else the legacy ones *)
FieldsOf(doc) == IF doc.names # <<>> THEN doc.names ELSE IF doc.header # <<>> THEN doc.header ELSE Legacy
RowOf(doc, r) == LET f == FieldsOf(doc)
                 IN [k \in {f[i] : i \in DOMAIN f} \cap Known |-> doc.rows[r][CHOOSE i \in DOMAIN f : f[i] = k]]
Meaning(table, fields) == [r \in DOMAIN table |-> [k \in fields \cap Known |-> table[r][k]]]

(***************************************************************************)
(* The reader.                                                             *)
(***************************************************************************)
CONSTANTS Tables,        \* set of tables
          Orders         \* set of sequences of fields
VARIABLES table, doc, line, given, verdict
vars == <<table, doc, line, given, verdict>>

Namings(order) == {"header", "fieldnames", "both"} \cup (IF order = Legacy THEN {"legacy"} ELSE {})
Init == \E t \in Tables, o \in Orders : \E n \in Namings(o) :
  table = t /\ doc = Document(t, o, n) /\ line = 0 /\ given = <<>> /\ verdict = "reading"
Start == /\ line = 0 /\ verdict = "reading"
         /\ LET f == FieldsOf(doc) IN
            IF Sufficient({f[i] : i \in DOMAIN f})
            THEN line' = (IF doc.header # <<>> THEN 2 ELSE 1) /\ UNCHANGED verdict
            ELSE verdict' = "rejected" /\ UNCHANGED line
         /\ UNCHANGED <<table, doc, given>>
\* lines are numbered from 1, the header included
Row == /\ line > 0 /\ verdict = "reading"
       /\ LET r == line - (IF doc.header # <<>> THEN 1 ELSE 0) IN
          IF r <= Len(doc.rows) THEN given' = Append(given, RowOf(doc, r)) /\ line' = line + 1 /\ UNCHANGED verdict
          ELSE verdict' = "read" /\ UNCHANGED <<given, line>>
       /\ UNCHANGED <<table, doc>>
Next == Start \/ Row
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

LOCAL Fs == LET f == FieldsOf(doc) IN {f[i] : i \in DOMAIN f}
LayoutFree == verdict = "read" => given = Meaning(table, Fs)
RejectedIff == verdict # "reading" => ((verdict = "rejected") <=> ~Sufficient(Fs))
Terminates == <>(verdict # "reading")
=============================================================================
