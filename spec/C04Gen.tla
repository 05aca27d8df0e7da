------------------------------- MODULE C04Gen -------------------------------
(***************************************************************************)
(* Fault points: every access of every run that Pipeline.tla describes,    *)
(* made to fail by each kind of error, under different pool sizes; and     *)
(* one bad image at every place of a list.                                 *)
(***************************************************************************)
EXTENDS Gen

Errors == <<"rasterio", "os", "memory", "runtime", "cv", "value", "key", "window", "timeout", "notfound", "index", "zero", "stop", "crs">>

Run(name, kind, bands, masked, ovw, stats, tiles) ==
  [name |-> name, kind |-> kind, bands |-> bands, masked |-> masked, ovw |-> ovw, stat_tiles |-> stats, tiles |-> tiles]

Runs == << Run("ortho", "ortho", 3, TRUE, TRUE, 1, 6),
           Run("ortho-nodata", "ortho", 1, FALSE, TRUE, 1, 6),
           Run("ortho-band-by-band", "perband", 2, TRUE, TRUE, 1, 6),
           Run("pan", "pan", 2, TRUE, TRUE, 1, 6),
           Run("pan-stats", "pan", 2, FALSE, TRUE, 3, 3) >>

(* how often each access happens in a run: <<access, times>> *)
Points(r) ==
  LET jobs == IF r.kind = "pan" THEN r.stat_tiles + r.tiles ELSE IF r.kind = "perband" THEN r.tiles * r.bands ELSE r.tiles
      tiles == IF r.kind = "perband" THEN r.tiles * r.bands ELSE r.tiles
  IN << <<"job", jobs>>, <<"write", tiles>>, <<"mask", IF r.masked THEN r.tiles ELSE 0>>, <<"overviews", IF r.ovw THEN 1 ELSE 0>>,
        <<"close:out", 1>> >>
     \o IF r.kind = "pan" THEN << <<"read:pan", jobs>>, <<"read:ms", jobs>> >>
        ELSE << <<"read:dem", 1>>, <<"read:src", IF r.kind = "perband" THEN r.bands ELSE 1>>, <<"remap", r.tiles * r.bands>> >>

Workers == <<1, 2, 6, 3, 0>>
Delays == <<"0", "0.002", "0", "0.001">>

(* each access of each run, with an error kind, pool and speed that vary from point to point *)
Single ==
  FlattenSeq([i \in 1..Len(Runs) |-> FlattenSeq([p \in 1..Len(Points(Runs[i])) |->
    LET op == Points(Runs[i])[p][1]  n == Points(Runs[i])[p][2]
        reps == IF Thorough THEN Len(Errors) ELSE IF n <= 2 THEN 6 ELSE 2
    IN FlattenSeq([k \in 1..n |-> [e \in 1..reps |->
         Runs[i] @@ [faults |-> << [op |-> op, n |-> k, exc |-> Pick(Errors, Seed + 5 * (i + k) + 3 * p + e)] >>,
                     workers |-> Pick(Workers, i + k + e), delay |-> Pick(Delays, k + e), linger |-> "0"]]])])])

(* all accesses of a kind fail, or two at different places *)
Multiple ==
  FlattenSeq([i \in 1..Len(Runs) |-> FlattenSeq([p \in 1..Len(Points(Runs[i])) |->
    LET ps == Points(Runs[i])  op == ps[p][1]  other == ps[1 + (p % Len(ps))] IN
    IF ps[p][2] = 0 THEN <<>> ELSE
    << Runs[i] @@ [faults |-> << [op |-> op, n |-> 0, exc |-> Pick(Errors, i + p)] >>, workers |-> Pick(Workers, i + p), delay |-> "0", linger |-> "0.001"],
       Runs[i] @@ [faults |-> << [op |-> op, n |-> ps[p][2], exc |-> Pick(Errors, i + p + 2)],
                                 [op |-> other[1], n |-> other[2], exc |-> Pick(Errors, i + p + 4)] >>,
                   workers |-> Pick(Workers, i + p + 1), delay |-> "0.002", linger |-> "0"] >>])])

(* no fault at all *)
None == [i \in 1..Len(Runs) |-> Runs[i] @@ [faults |-> <<>>, workers |-> 3, delay |-> "0.001", linger |-> "0.001"]]

(* the command line over three images: a step of the m-th image fails *)
Cli ==
  LET pts == << <<"write", 6>>, <<"job", 6>>, <<"mask", 6>>, <<"remap", 12>>, <<"overviews", 3>>, <<"read:im0", 1>>, <<"read:im1", 1>>, <<"read:im2", 1>>,
                <<"read:dem", 3>>, <<"close:out", 1>> >>
  IN FlattenSeq([p \in 1..Len(pts) |-> [k \in 1..pts[p][2] |->
       [name |-> "cli-frame", kind |-> "cli", images |-> 3, faults |-> << [op |-> pts[p][1], n |-> k, exc |-> Pick(Errors, Seed + k + p)] >>,
        workers |-> Pick(Workers, k), delay |-> "0", linger |-> "0"]]])
     \o FlattenSeq([p \in 1..6 |-> LET op == <<"write", "job", "overviews", "read:pan", "read:ms", "close:out">>[p] IN [k \in 1..(IF p \in {3, 6} THEN 1 ELSE 2) |->
       [name |-> "cli-sharpen", kind |-> "cli", images |-> 1, faults |-> << [op |-> op, n |-> k, exc |-> Pick(Errors, Seed + k + p + 3)] >>,
        workers |-> 2, delay |-> "0", linger |-> "0"]]])
     \o << [name |-> "cli-frame", kind |-> "cli", images |-> 3, faults |-> <<>>, workers |-> 0, delay |-> "0", linger |-> "0"],
           [name |-> "cli-sharpen", kind |-> "cli", images |-> 1, faults |-> <<>>, workers |-> 0, delay |-> "0", linger |-> "0"] >>

(* a file that cannot be read to its end *)
Damaged ==
  FlattenSeq([f \in 1..4 |-> LET file == <<"src", "dem", "pan", "ms">>[f] IN [k \in 1..3 |->
    [name |-> "damaged-" \o file, kind |-> IF file \in {"pan", "ms"} THEN "pan" ELSE <<"ortho", "perband", "ortho">>[k], bands |-> 2, masked |-> k = 1,
     ovw |-> TRUE, stat_tiles |-> 1, tiles |-> 6, faults |-> <<>>, damage |-> file, at |-> k, workers |-> Pick(Workers, k), delay |-> "0", linger |-> "0"]]])

(* one bad image at each place of a list of images whose metadata is read *)
Meta ==
  LET readers == <<"exif", "rpc", "gcps", "cli-exif", "cli-rpc", "cli-gcps", "cli-frame">>
      bads == <<"missing", "empty", "notags", "garbage">>
      ns == IF Thorough THEN <<1, 2, 5, 12>> ELSE <<3>>
  IN FlattenSeq([r \in 1..Len(readers) |-> FlattenSeq([b \in 1..Len(bads) |-> FlattenSeq([m \in 1..Len(ns) |-> [at \in 1..ns[m] |->
       [name |-> "meta-" \o readers[r], kind |-> "meta", reader |-> readers[r], n |-> ns[m], bad |-> bads[b], at |-> at - 1, faults |-> <<>>]]])])])
     \o FlattenSeq([r \in 1..3 |-> [e \in 1..Len(Errors) |->
       [name |-> "meta-" \o readers[r], kind |-> "meta", reader |-> readers[r], n |-> 4, bad |-> "none", at |-> 0,
        faults |-> << [op |-> "job", n |-> 1 + (e % 4), exc |-> Errors[e]] >>]]])
     \o [r \in 1..Len(readers) |-> [name |-> "meta-" \o readers[r], kind |-> "meta", reader |-> readers[r], n |-> 3, bad |-> "none", at |-> 0, faults |-> <<>>]]

(* the disk is full before the output is complete *)
DiskFull == FlattenSeq([k \in 1..3 |-> LET kind == <<"ortho", "perband", "pan">>[k] IN [m \in 1..3 |->
  [name |-> "disk-full-" \o kind, kind |-> kind, bands |-> 2, masked |-> FALSE, ovw |-> TRUE, stat_tiles |-> 1, tiles |-> 6, faults |-> <<>>,
   limit |-> <<100, 1500, 3000>>[m], workers |-> 2, delay |-> "0", linger |-> "0"]]])

GenCases == DiskFull \o None \o Single \o Multiple \o Cli \o Damaged \o Meta
=============================================================================
