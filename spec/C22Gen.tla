------------------------------- MODULE C22Gen -------------------------------
(* Lists of images, the order in which their reads finish, and which of them fail. *)
EXTENDS Gen

Whats == <<"exif", "rpc", "gcps", "exif-cameras", "rpc-cameras">>
\* all orders of n reads, as positions in the list
Perms(n) == SetToSeq({p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j})
Swap(p, i, j) == [p EXCEPT ![i] = p[j], ![j] = p[i]]
RECURSIVE Shuffle(_, _, _)
Shuffle(p, k, h) == IF k <= 1 THEN p ELSE Shuffle(Swap(p, k, 1 + Rnd(h + k, k)), k - 1, h)
Kinds(n, h) == LET f == Rnd(h, 5) IN
  [i \in 1..n |-> IF f < 2 THEN "ok" ELSE IF Rnd(h * 3 + i, n) # 0 THEN "ok" ELSE Pick(<<"missing", "none", "nonsense", "missing", "broken-tags">>, Rnd(h + 7 * i, 5))]
Case(name, what, n, order, kind, h) ==
  [name |-> name, what |-> what, kind |-> kind, order |-> order, way |-> [i \in 1..n |-> Pick(<<"path", "str", "openfile", "dataset", "path">>, Rnd(h + 11 * i, 5))],
   progress |-> Rnd(h + 3, 4) = 0, dup |-> FALSE]
Orders == FlattenSeq([n \in 1..4 |-> [k \in 1..Len(Perms(n)) |-> LET h == n * 100 + k IN Case("order-" \o ToString(n) \o "-" \o ToString(k), Pick(Whats, k + n), n, Perms(n)[k], [i \in 1..n |-> "ok"], h)]])
Fails == FlattenSeq([w \in 1..5 |-> FlattenSeq([n \in 1..3 |-> FlattenSeq([pos \in 1..n |-> [f \in 1..4 |->
  LET h == 1000 + w * 100 + n * 20 + pos * 5 + f
  IN Case("fail-" \o Whats[w] \o ToString(n) \o ToString(pos) \o ToString(f), Whats[w], n, Shuffle([i \in 1..n |-> i], n, h), [i \in 1..n |-> IF i = pos THEN <<"missing", "none", "nonsense", "broken-tags">>[f] ELSE "ok"], h)]])])])
Many == [h \in 1..(IF Thorough THEN 600 ELSE 150) |-> LET n == 1 + Rnd(h + 90, 10)  g == h + 7000 * Seed IN
  Case("many-" \o ToString(h), Pick(Whats, h), n, Shuffle([i \in 1..n |-> i], n, g), Kinds(n, g), g)]
Large == [h \in 1..4 |-> LET n == 24 + h IN Case("large-" \o ToString(h), Pick(Whats, h), n, Shuffle([i \in 1..n |-> i], 12, h), [i \in 1..n |-> IF h % 2 = 0 /\ i = n THEN "missing" ELSE "ok"], h)]
Empty == [h \in 1..3 |-> Case("empty-" \o Whats[h], Whats[h], 0, <<>>, <<>>, h)]
GenCases == Orders \o Fails \o Many \o Large \o Empty
=============================================================================
