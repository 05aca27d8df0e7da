------------------------------- MODULE C14Gen -------------------------------
(* Tables of exterior parameters and their layouts. *)
EXTENDS Gen

C == INSTANCE Csv WITH Tables <- {}, Orders <- {}, table <- done, doc <- done, line <- done, given <- done, verdict <- done

Row(f, a, b, c, d, e, g, cam) == [filename |-> f, a |-> a, b |-> b, c |-> c, d |-> d, e |-> e, g |-> g, camera |-> cam]
\* a is latitude south and the end of y, b longitude and the end of x
\* position (a, b, c) and orientation (d, e, g): x, y, z or latitude, longitude, altitude; omega, phi, kappa or roll, pitch, yaw
Contents == <<
  << Row("im0.tif", "34.25", "24.5", "210.5", "1.5", "-2.25", "10.125", "cam 0"), Row("im1.tif", "34.251", "24.501", "212.0", "-1.0", "0.5", "-170.25", "cam 1"),
     Row("im2.tif", "34.252", "24.4995", "209.25", "0.25", "-0.125", "91.75", "cam 0") >>,
  << Row("one.jpg", "33.5", "23.25", "1500.75", "0.75", "-1.5", "-3.5", "c") >>,
  << Row("a long name.tif", "33.75", "23.5", "1500.75", "0.75", "-1.5", "-3.5", "Maker Model 1.0"), Row("b.tif", "33.5", "23.25", "99.5", "-0.75", "1.25", "179.5", "x") >>,
  << Row("3324c_05_0182_RGB", "33.625", "24.375", "5258.308", "-0.349", "0.298", "-179.087", "dmc"), Row("3324c_05_0184_RGB", "33.6251", "24.3751", "5256.765", "0.27", "-0.282", "-179.028", "dmc") >>,
  << Row("z.tif", "34", "24", "200", "0", "0", "0", "k1"), Row("y.tif", "35", "25", "300", "1", "-2", "90", "k2"), Row("x.tif", "34", "25", "100", "0", "-1", "-90", "k1"),
     Row("w.tif", "33", "24", "50", "2", "2", "45", "k2") >>,
  << Row("1001", "34.5", "24.75", "1e2", "1.5e0", "-2.5E-1", "3e1", "7"), Row("1002", "34.5", "24.76", "1.25e2", "-1.5e-3", "0.5", "-30.0", "8") >>,
  [k \in 1..160 |-> Row("IMG_" \o ToString(1000 + k) \o ".JPG", "34.1" \o ToString(100 + k), "24.2" \o ToString(300 + k), "20" \o ToString(k % 10) \o ".5", "0." \o ToString(k), "-1." \o ToString(k), ToString(k) \o ".5", "cam")],
  << Row("it's.tif", "34.25", "24.5", "210.5", "1.5", "-2.25", "10.125", "a;b"), Row("im1.tif", "34.251", "24.501", "212.0", "-1.0", "0.5", "-170.25", "a:b, c") >> >>
\* the value of each field of a row
Values(r) == [filename |-> r.filename, x |-> "3000" \o r.b, y |-> "62000" \o r.a, z |-> r.c, latitude |-> "-" \o r.a, longitude |-> r.b, altitude |-> r.c,
              omega |-> r.d, phi |-> r.e, kappa |-> r.g, roll |-> r.d, pitch |-> r.e, yaw |-> r.g, camera |-> r.camera]
Kinds == <<"xyz_opk", "lla_rpy", "xyz_rpy", "lla_opk">>
PosF(kind) == IF kind \in {"xyz_opk", "xyz_rpy"} THEN <<"x", "y", "z">> ELSE <<"latitude", "longitude", "altitude">>
OriF(kind) == IF kind \in {"xyz_opk", "lla_opk"} THEN <<"omega", "phi", "kappa">> ELSE <<"roll", "pitch", "yaw">>
Base(kind, cam) == <<"filename">> \o PosF(kind) \o OriF(kind) \o (IF cam THEN <<"camera">> ELSE <<>>)
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
Rot(s, n) == SubSeq(s, n + 1, Len(s)) \o SubSeq(s, 1, n)
Ins(s, n, f) == SubSeq(s, 1, n) \o <<f>> \o SubSeq(s, n + 1, Len(s))
OrderOf(kind, cam, o) ==
  LET b == Base(kind, cam)
  IN CASE o = 1 -> b [] o = 2 -> Rev(b) [] o = 3 -> Rot(b, 4) [] o = 4 -> Ins(Rot(b, 2), 3, "note") [] o = 5 -> Ins(Ins(b, 1, "accuracy"), 6, "note") [] o = 6 -> Append(Rev(Rot(b, 3)), "accuracy")

Delims == <<",", ";", ":", " ", "tab">>
Quotes == <<[char |-> "none", on |-> "needed"], [char |-> "double", on |-> "needed"], [char |-> "double", on |-> "text"], [char |-> "double", on |-> "all"],
            [char |-> "single", on |-> "text"], [char |-> "single", on |-> "all"]>>
Terms == <<"lf", "crlf", "lf-none", "crlf-blank">>
Heads == <<"lower", "upper", "title", "padded">>
Units == <<"degrees", "radians">>
Folders == <<"", "dir/", "/data/flight 1/", "./">>
Sources == <<"path", "openfile", "stringio", "handle", "uri">>

\* text that holds the delimiter must be quoted
Needs(t, d) == (d = " " /\ t \in {1, 3, 8}) \/ (d \in {",", ";", ":"} /\ t = 8)
Layout(t, kind, d, q, named, o, k, cam) ==
  LET quote == IF (q = 1 /\ Needs(t, Delims[d])) \/ (t = 8 /\ q > 4) THEN Quotes[3] ELSE Quotes[q]
      prefix == IF quote.char = "none" \/ Delims[d] = ":" THEN "" ELSE Pick(Folders, k)
      pad == Delims[d] \in {",", ";"} /\ k % 3 = 1
      order == OrderOf(kind, cam, o)
  IN [name |-> ToString(t) \o kind \o "-" \o Delims[d] \o "-" \o quote.char \o "-" \o quote.on \o "-" \o named \o ToString(o) \o (IF cam THEN "c" ELSE ""),
      kind |-> kind, table |-> [r \in DOMAIN Contents[t] |-> Values(Contents[t][r])], delim |-> Delims[d], quote |-> quote.char, quoted |-> quote.on, named |-> named,
      order |-> order, term |-> Pick(Terms, k \div 2), head |-> Heads[1 + (k % (IF Delims[d] = " " \/ quote.on # "needed" THEN 3 ELSE 4))], unit |-> Pick(Units, k), prefix |-> prefix, pad |-> pad,
      source |-> Pick(Sources, k), damage |-> "none", crs |-> "EPSG:32735", ok |-> C!Sufficient({order[i] : i \in DOMAIN order})]
\* the legacy layout
LegacyCases == FlattenSeq([t \in 1..8 |-> FlattenSeq([d \in 1..5 |-> [q \in 1..6 |-> Layout(t, "xyz_opk", d, q, "legacy", 1, t + (3 * d) + q, FALSE)]])])
Others == FlattenSeq([t \in 1..8 |-> FlattenSeq([d \in 1..5 |-> FlattenSeq([q \in 1..6 |-> [o \in 1..6 |->
  LET k == (t * 7) + (d * 5) + (q * 3) + o
  IN Layout(t, Kinds[1 + ((k + t) % 4)], d, q, <<"header", "fieldnames", "both", "header">>[1 + ((k + d) % 4)], o, k, (k % 3) # 0)]])])])
\* tables without required fields
Without(s, f) == SelectSeq(s, LAMBDA x : x # f)
Lacking == FlattenSeq([n \in 1..4 |-> FlattenSeq([m \in 1..7 |-> [j \in 1..3 |->
  LET kind == Kinds[n]  b == Base(kind, FALSE)  order == Append(Without(b, b[m]), "note")
      c == Layout(1, kind, 1 + ((n + m + j) % 5), 2 + j, <<"header", "fieldnames", "both">>[j], 1, 0, FALSE)
  IN [c EXCEPT !.name = "lacking-" \o kind \o "-" \o b[m] \o "-" \o ToString(j), !.order = order, !.ok = C!Sufficient({order[i] : i \in DOMAIN order})]]])])
\* a complete set of fields beside an incomplete one
Partial == [n \in 1..4 |->
  LET kind == Kinds[n]  extra == <<"latitude", "roll", "longitude", "pitch">>[n]
      k2 == <<"xyz_opk", "xyz_opk", "xyz_rpy", "lla_opk">>[n]
      c == Layout(1, k2, 1, 4, "header", 1, n, TRUE)
  IN [c EXCEPT !.name = "partial-" \o ToString(n), !.order = Append(c.order, extra)]]
\* tables with missing values, and files that are not tables
Damages == <<"short", "text", "blank", "empty", "words">>
Damaged == FlattenSeq([n \in 1..4 |-> [m \in 1..5 |->
  LET c == Layout(1 + (m % 2) * 3, Kinds[n], 1 + ((n + m) % 5), 4, <<"header", "fieldnames", "both", "header">>[n], 1 + (m % 3), n + m, TRUE)
  IN [c EXCEPT !.name = "damaged-" \o Kinds[n] \o "-" \o Damages[m], !.damage = Damages[m], !.ok = FALSE]]])
GenCases == LegacyCases \o Others \o Lacking \o Partial \o Damaged
=============================================================================
