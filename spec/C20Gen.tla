------------------------------- MODULE C20Gen -------------------------------
EXTENDS Gen, Cli

O(args, key, val) == [args |-> args, key |-> key, val |-> val]
Interps == <<"nearest", "average", "bilinear", "cubic", "lanczos">>
Both(short, long, key, values) == [i \in 1..Len(values) |-> O(<<IF i % 2 = 0 THEN short ELSE long, values[i]>>, key, values[i])]
\* options that all of the orthorectifying commands have, apart from the output profile ...
Common == <<O(<<"-r", "2">>, "resolution", <<"2", "2">>), O(<<"--res", "3.5">>, "resolution", <<"3.5", "3.5">>), O(<<"--res", "2.5", "-r", "1.75">>, "resolution", <<"2.5", "1.75">>)>>
  \o Both("-i", "--interp", "interp", Interps) \o Both("-di", "--dem-interp", "dem_interp", Interps)
  \o <<O(<<"-pb">>, "per_band", TRUE), O(<<"--no-per-band">>, "per_band", FALSE), O(<<"-npb">>, "per_band", FALSE), O(<<"--per-band">>, "per_band", TRUE)>>
\* ... and of the output profile, in consistent sets
Out(d, c, w) == (IF d = "" THEN <<>> ELSE <<O(<<"-dt", d>>, "dtype", d)>>) \o (IF c = "" THEN <<>> ELSE <<O(<<"--compress", c>>, "compress", c)>>)
  \o (IF w = "" THEN <<>> ELSE <<O(<<w>>, "write_mask", w \in {"-wm", "--write-mask"})>>)
OutSets == <<Out("", "", ""), Out("uint8", "", ""), Out("uint16", "", ""), Out("int16", "", ""), Out("float32", "", ""), Out("float64", "", ""),
             Out("", "deflate", ""), Out("", "lzw", ""), Out("uint8", "jpeg", ""), Out("", "", "-wm"), Out("", "", "--no-write-mask"), Out("uint16", "lzw", "--write-mask"), Out("uint8", "deflate", "-nwm"), Out("float32", "deflate", "-wm")>>
Extras == <<O(<<"-nbo">>, "build_ovw", FALSE), O(<<"--build-ovw">>, "build_ovw", TRUE), O(<<"-bo">>, "build_ovw", TRUE), O(<<"--no-build-ovw">>, "build_ovw", FALSE), O(<<"-dv", "cog">>, "driver", "cog"), O(<<"--driver", "gtiff">>, "driver", "gtiff")>>
Creation == <<O(<<"-co", "COMPRESS=LZW">>, "creation", << <<"compress", "lzw">> >>), O(<<"-co", "TILED=YES", "-co", "BLOCKXSIZE=32", "--creation-option", "BLOCKYSIZE=16">>, "creation", << <<"tiled", "yes">>, <<"blockxsize", "32">>, <<"blockysize", "16">> >>),
             O(<<"-co", "compress=deflate", "-co", " zlevel = 9">>, "creation", << <<"compress", "deflate">>, <<"zlevel", "9">> >>)>>
CamOpts == <<O(<<"-nfr">>, "distort", FALSE), O(<<"--full-remap">>, "distort", TRUE), O(<<"--no-full-remap">>, "distort", FALSE), O(<<"-fr">>, "distort", TRUE),
             O(<<"-a", "0">>, "alpha", "0"), O(<<"--alpha", "0.5">>, "alpha", "0.5")>>
DemBand == <<O(<<"-db", "2">>, "dem_band", 2), O(<<"--dem-band", "1">>, "dem_band", 1)>>
\* the words of a CRS are made by the driver: a string, or a file that has it
Crs(f) == O(<<"-c", "crs:" \o f>>, "crs", "EPSG:32735")
CrsForms == <<"epsg", "wkt", "proj4", "text", "tif", "TIFF", "bare">>
OtherCrs == O(<<"--crs", "EPSG:32734">>, "crs", "EPSG:32734")
Radians == O(<<"-rd">>, "radians", TRUE)
Lla(long) == O(<<IF long THEN "--lla-crs" ELSE "-lc", "EPSG:4222">>, "lla", "EPSG:4222")
Overwrite(h) == O(<<IF h % 2 = 0 THEN "-o" ELSE "--overwrite">>, "overwrite", TRUE)
Export(h) == O(<<IF h % 2 = 0 THEN "-e" ELSE "--export-params">>, "export", TRUE)
Tags(h) == O(<<"-gr", IF h % 2 = 0 THEN "tags" ELSE "TAGS">>, "refine", "tags")
GcpFile == O(<<"--gcp-refine", "file:gcps">>, "refine", "file")
Method(m) == O(<<"-rm", m>>, "method", m)

\* images
Im(k, h) == [k |-> k, stem |-> "im" \o ToString(k) \o (IF Rnd(h + 3 * k, 5) = 0 THEN ".v" \o ToString(k) ELSE ""), dir |-> Pick(<<"a", "b">>, Rnd(h + k, 2)), dtype |-> Pick(<<"uint8", "uint8", "uint16", "float32", "int16">>, Rnd(h * 3 + k, 5)), bands |-> Pick(<<3, 1, 4, 2>>, Rnd(h * 5 + k, 4)),
             crs |-> "", exists |-> TRUE, known |-> TRUE, out |-> "none", gcps |-> 5, nodata |-> Rnd(h + 7 * k, 3) = 0]
Perms == <<<<1, 2, 3, 4>>, <<3, 1, 2, 4>>, <<2, 4, 1, 3>>, <<4, 3, 2, 1>>, <<2, 1, 4, 3>>>>
Images(n, h) == LET p == SelectSeq(Pick(Perms, Rnd(h, 5)), LAMBDA v : v <= n) IN [i \in 1..n |-> Im(p[i] - 1, h)]
Base(cmd, name) == [name |-> name, cmd |-> cmd, images |-> Images(1, 1), opts |-> <<>>, params |-> "prj", badopt |-> <<>>, missing |-> "", broken |-> "", outdir |-> "", dem |-> "ok", exported |-> "none", process |-> FALSE]
With(r, opts) == [r EXCEPT !.opts = opts]

Options(cmd) == Common \o Extras \o Creation
  \o (IF cmd \in {"frame", "exif", "odm"} THEN CamOpts ELSE <<>>) \o (IF cmd \in {"frame", "exif", "rpc"} THEN DemBand ELSE <<>>)
Small == O(<<"-r", "3">>, "resolution", <<"3", "3">>)
\* each option alone
Alone(cmd, step) == LET os == Every(Options(cmd), step) IN
  [i \in 1..Len(os) |-> LET h == i * 7 + Len(cmd) IN
    [Base(cmd, cmd \o "-option-" \o ToString(i)) EXCEPT !.images = Images(2, h), !.params = Pick(<<"prj", "geojson", "csv", "lla">>, Rnd(h, 4)),
       !.opts = (IF cmd = "rpc" /\ i % 3 # 0 THEN <<Crs(Pick(CrsForms, i))>> ELSE <<>>) \o (IF os[i].key = "alpha" THEN <<CamOpts[1], os[i]>> ELSE <<os[i]>>) \o (IF os[i].key \in {"resolution", "build_ovw"} THEN <<>> ELSE <<Small>>)]]
AloneOut(cmd, step) == LET os == Every(OutSets, step) IN [i \in 1..Len(os) |-> [Base(cmd, cmd \o "-profile-" \o ToString(i)) EXCEPT !.images = Images(2, i * 5 + 1), !.opts = os[i] \o <<Small>>]]
\* combinations, of up to four images
Mixed(cmd, h) ==
  LET n == 1 + Rnd(h, 4)
      os == Options(cmd)
      pick(q) == IF Rnd(h + q, 2) = 0 THEN <<>> ELSE <<Pick(os, Rnd(h * 11 + q, 97))>>
      crs == Pick(<<<<>>, <<Crs(Pick(CrsForms, Rnd(h, 7)))>>, <<OtherCrs>>, <<>> >>, Rnd(h + 2, 4))
      params == Pick(<<"csv", "prj", "geojson", "lla", "csv", "prj">>, Rnd(h + 3, 6))
      rpc == IF cmd # "rpc" THEN <<>> ELSE Pick(<<<<>>, <<Tags(h)>>, <<GcpFile>>, <<GcpFile, Method("shift-drift")>>, <<Method("shift"), Tags(h)>>, <<Method("shift-drift"), Tags(h)>> >>, Rnd(h + 4, 6))
      over == IF Rnd(h + 5, 2) = 0 THEN <<Overwrite(h)>> ELSE <<>>
      ims == Images(n, h)
  IN [Base(cmd, cmd \o "-mixed-" \o ToString(h)) EXCEPT
        \* images have CRSs of their own where nothing else says what the CRS is
        !.images = [i \in 1..n |-> [ims[i] EXCEPT !.crs = Pick(<<"own", "other">>, Rnd(h + 9 * i, 2)), !.out = IF over # <<>> /\ Rnd(h + i, 2) = 0 THEN "old" ELSE "none",
                                      !.gcps = IF rpc # <<>> /\ rpc[1].key = "refine" /\ rpc[1].val = "file" /\ i > 1 /\ Rnd(h + i, 3) = 0 THEN 0 ELSE 5]],
        !.params = IF crs # <<>> /\ params = "geojson" THEN "prj" ELSE params,
        !.process = Rnd(h + 8, 12) = 0,
        !.opts = <<Small>> \o Pick(OutSets, Rnd(h + 6, 14)) \o pick(1) \o pick(2) \o pick(3) \o pick(4) \o crs \o rpc \o over
                 \o (IF cmd = "frame" /\ params \in {"csv", "prj", "lla"} /\ Rnd(h + 10, 3) = 0 THEN <<Radians>> ELSE <<>>)]
\* exported parameters
Exported(h) ==
  LET cmd == Pick(<<"frame", "exif", "odm", "rpc", "frame">>, h)
      n == 1 + Rnd(h, 3)
  IN [Base(cmd, "export-" \o ToString(h)) EXCEPT !.images = Images(n, h), !.params = Pick(<<"lla", "prj", "geojson", "csv">>, Rnd(h + 1, 4)), !.exported = Pick(<<"none", "old">>, Rnd(h + 2, 2)), !.dem = IF cmd = "odm" THEN "ok" ELSE Pick(<<"ok", "none">>, Rnd(h + 12, 2)),
        !.opts = <<Export(h)>> \o (IF Rnd(h + 3, 3) # 0 THEN <<Overwrite(h)>> ELSE <<>>) \o (IF Rnd(h + 4, 3) = 0 /\ cmd # "frame" THEN <<Crs("epsg")>> ELSE <<>>)
          \o (IF cmd \in {"frame", "exif"} /\ Rnd(h + 5, 2) = 0 THEN <<Lla(h % 2 = 0)>> ELSE <<>>) \o (IF cmd = "rpc" THEN Pick(<<<<>>, <<Tags(h)>>, <<GcpFile, Method("shift-drift")>> >>, Rnd(h + 6, 3)) ELSE <<>>)
          \o (IF cmd = "frame" /\ Rnd(h + 7, 2) = 0 THEN <<Radians>> ELSE <<>>)]
\* errors of the user
BadOpts(cmd) == <<<<"-r", "0">>, <<"-r", "-2">>, <<"-r", "nan">>, <<"-r", "2", "-r", "0">>, <<"-r", "1", "-r", "2", "-r", "3">>, <<"-r", "x">>, <<"-i", "sinc">>, <<"-di", "Cubic2">>, <<"-dt", "int64">>, <<"-cm", "zip">>, <<"-dv", "png">>, <<"-co", "novalue">>, <<"-zz">>,
                  <<"-c", "EPSG:1">>, <<"-c", "file:nocrs.tif">>, <<"-c", "file:none.tif">>, <<"-c", "file:broken.txt">>, <<"-dt", "float32", "-cm", "jpeg">>>>
  \o (IF cmd # "rpc" THEN <<<<"-c", "EPSG:4326">>, <<"-a", "2">>, <<"-a", "-0.1">>>> ELSE <<<<"-rm", "affine">>>>)
  \o (IF cmd \in {"frame", "exif"} THEN <<<<"-lc", "EPSG:32735">>, <<"-lc", "file:nocrs.tif">>, <<"-lc", "x">>>> ELSE <<>>)
Bad(cmd) == LET b == BadOpts(cmd) IN [i \in 1..Len(b) |-> [Base(cmd, cmd \o "-bad-" \o ToString(i)) EXCEPT !.images = Images(1 + (i % 2), i), !.badopt = b[i], !.params = "prj", !.process = (i % 9 = 0)]]
Faults(cmd) == LET two == Images(2, 3)  three == Images(3, 5)  b == Base(cmd, "")  f(name, r) == [r EXCEPT !.name = cmd \o "-" \o name] IN
  (IF cmd = "odm" THEN <<>> ELSE
   <<f("source-1", [b EXCEPT !.images = [two EXCEPT ![1].exists = FALSE]]), f("source-2", [b EXCEPT !.images = [two EXCEPT ![2].exists = FALSE]]),
     f("no-dem", [b EXCEPT !.dem = "none"]), f("dem-missing", [b EXCEPT !.dem = "missing"]), f("band-0", With(b, <<O(<<"-db", "0">>, "dem_band", 0)>>)), f("band-3", With(b, <<O(<<"-db", "3">>, "dem_band", 3)>>)),
     f("names", [b EXCEPT !.images = [two EXCEPT ![2].stem = two[1].stem, ![1].dir = "a", ![2].dir = "b"], !.opts = <<Overwrite(1)>>])>>)
  \o <<f("known-1", [b EXCEPT !.images = [three EXCEPT ![1].known = FALSE]]), f("known-3", [b EXCEPT !.images = [three EXCEPT ![3].known = FALSE]]),
       f("exists-1", [b EXCEPT !.images = [two EXCEPT ![1].out = "old"]]), f("exists-2", [b EXCEPT !.images = [three EXCEPT ![2].out = "old"]]),
       f("far", [b EXCEPT !.dem = "far", !.opts = <<Crs("epsg")>>]), f("dem-nocrs", [b EXCEPT !.dem = "nocrs", !.opts = <<Crs("epsg")>>]), f("outdir-none", [b EXCEPT !.outdir = "none"]), f("outdir-file", [b EXCEPT !.outdir = "file"])>>
FrameFaults == LET b == Base("frame", "")  two == Images(2, 3)  f(name, r) == [r EXCEPT !.name = "frame-" \o name] IN
  <<f("crs-1", [b EXCEPT !.params = "csv", !.images = [two EXCEPT ![2].crs = "own"]]), f("crs-2", [b EXCEPT !.params = "csv", !.images = [two EXCEPT ![1].crs = "own"]]),
    f("int-missing", [b EXCEPT !.missing = "int"]), f("ext-missing", [b EXCEPT !.missing = "ext"]), f("int-broken", [b EXCEPT !.broken = "int"]), f("ext-broken", [b EXCEPT !.broken = "ext"]), f("int-type", [b EXCEPT !.broken = "inttype"]),
    f("export-crs", [b EXCEPT !.params = "csv", !.opts = <<Export(1)>>]), f("export-exists", [b EXCEPT !.exported = "old", !.opts = <<Export(1)>>]), f("camera", [b EXCEPT !.broken = "camera"])>>
RpcFaults == LET b == Base("rpc", "")  two == Images(2, 3)  f(name, r) == [r EXCEPT !.name = "rpc-" \o name] IN
  <<f("gcps-none", [b EXCEPT !.images = [two EXCEPT ![2].gcps = 0], !.opts = <<Tags(1)>>]), f("gcps-few", [b EXCEPT !.images = [two EXCEPT ![2].gcps = 1], !.opts = <<Tags(1), Method("shift-drift")>>]),
    f("gcps-few-file", [b EXCEPT !.images = [two EXCEPT ![1].gcps = 1], !.opts = <<GcpFile, Method("shift-drift")>>]), f("gcps-missing", [b EXCEPT !.missing = "gcps", !.opts = <<GcpFile>>]), f("gcps-broken", [b EXCEPT !.broken = "gcps", !.opts = <<GcpFile>>]),
    f("rpc-missing", [b EXCEPT !.missing = "rpc", !.params = "file"]), f("rpc-broken", [b EXCEPT !.broken = "rpc", !.params = "file"])>>
OdmFaults == LET b == Base("odm", "")  f(name, r) == [r EXCEPT !.name = "odm-" \o name] IN
  <<f("dir", [b EXCEPT !.missing = "dataset"]), f("images", [b EXCEPT !.missing = "images"]), f("dsm", [b EXCEPT !.missing = "dsm"]), f("rec", [b EXCEPT !.missing = "rec"]), f("broken", [b EXCEPT !.broken = "rec"])>>
\* pan-sharpening
PanOpts == <<O(<<"-pi", "2">>, "pan_index", 2), O(<<"--pan-index", "1">>, "pan_index", 1), O(<<"-mi", "3", "-mi", "1">>, "ms_indexes", <<3, 1>>), O(<<"--ms-index", "2">>, "ms_indexes", <<2>>),
             O(<<"-mi", "1", "-mi", "2", "-w", "0.2", "--weight", "0.8">>, "ms_indexes", <<1, 2>>), O(<<"-w", "0.5", "-w", "0.25", "-w", "0.25">>, "weights", <<"0.5", "0.25", "0.25">>)>>
  \o Both("-i", "--interp", "interp", Interps) \o Extras \o Creation
PanJob(o) == IF o.key = "ms_indexes" /\ Len(o.args) = 8 THEN <<o, O(<<>>, "weights", <<"0.2", "0.8">>)>> ELSE <<o>>
Pan == [i \in 1..Len(PanOpts) |-> [Base("sharpen", "sharpen-" \o ToString(i)) EXCEPT !.images = <<[Im(0, i) EXCEPT !.dtype = Pick(<<"uint8", "uint16">>, i)]>>, !.opts = PanJob(PanOpts[i])]]
  \o [i \in 1..Len(OutSets) |-> [Base("sharpen", "sharpen-profile-" \o ToString(i)) EXCEPT !.images = <<[Im(0, i) EXCEPT !.dtype = "uint8", !.out = Pick(<<"none", "old">>, i)]>>, !.opts = OutSets[i] \o PanJob(Pick(PanOpts, Rnd(i, 50))) \o <<Overwrite(i)>>]]
  \o LET bad == <<<<"-pi", "0">>, <<"-pi", "3">>, <<"-mi", "0">>, <<"-mi", "9">>, <<"-w", "-1", "-w", "1", "-w", "1">>, <<"-w", "0.5">>, <<"-w", "0", "-w", "0", "-w", "0">>, <<"-i", "x">>, <<"-dt", "int8">>, <<"-co", "x">>, <<"-pi", "a">>>> IN
     [i \in 1..Len(bad) |-> [Base("sharpen", "sharpen-bad-" \o ToString(i)) EXCEPT !.images = <<[Im(0, i) EXCEPT !.dtype = "uint8"]>>, !.badopt = bad[i]]]
  \o LET b == [Base("sharpen", "") EXCEPT !.images = <<[Im(0, 1) EXCEPT !.dtype = "uint8"]>>] IN
     <<[b EXCEPT !.name = "sharpen-pan-missing", !.missing = "pan"], [b EXCEPT !.name = "sharpen-ms-missing", !.missing = "ms"], [b EXCEPT !.name = "sharpen-exists", !.images[1].out = "old"], [b EXCEPT !.name = "sharpen-apart", !.broken = "apart"]>>
\* the deprecated command, that writes beside the source by default
Simple(h) == [Base("simple", "simple-" \o ToString(h)) EXCEPT !.images = [i \in 1..(1 + (h % 4)) |-> [Im(i - 1, h) EXCEPT !.crs = Pick(<<"own", "other">>, Rnd(h + i, 2)), !.dir = Pick(<<"a", "b">>, i + h)]], !.params = "csv",
  !.opts = Pick(<<<<>>, <<Crs("epsg")>>, <<OtherCrs>> >>, Rnd(h, 3)) \o <<Small, Pick(CamOpts, Rnd(h, 4)), Pick(Common, 3 + Rnd(h + 1, 12))>> \o Pick(OutSets, Rnd(h + 2, 6))]
\* nothing that an image is to be given depends on the others
All == LET N == IF Thorough THEN 400 ELSE 26  q == IF Thorough THEN 1 ELSE 3 IN
  Alone("frame", 1) \o Alone("exif", q) \o Alone("odm", q) \o Alone("rpc", q) \o AloneOut("frame", 1) \o AloneOut("rpc", q) \o AloneOut("exif", q)
  \o [h \in 1..(2 * N) |-> Mixed("frame", h)] \o [h \in 1..N |-> Mixed("exif", h)] \o [h \in 1..N |-> Mixed("odm", h)] \o [h \in 1..N |-> Mixed("rpc", h)]
  \o [h \in 1..30 |-> Exported(h)] \o Bad("frame") \o Bad("exif") \o Bad("rpc") \o Bad("odm") \o Faults("frame") \o Faults("exif") \o Faults("rpc") \o Faults("odm") \o FrameFaults \o RpcFaults \o OdmFaults
  \o Pan \o [h \in 1..8 |-> Simple(h)]
\* a resolution is in units of the CRS: those here are metres; and parameters of RPC requests are tags or a file
\* options that can be repeated are given once
Once(opts) == SelectSeq([i \in DOMAIN opts |-> IF opts[i].key \in {"resolution", "creation", "ms_indexes", "weights"} /\ i # LastOf(Given(opts, opts[i].key)) THEN [opts[i] EXCEPT !.key = ""] ELSE opts[i]], LAMBDA o : o.key # "")
Metric(q) == LET r == [q EXCEPT !.opts = Once(@)] IN IF r.cmd = "rpc" THEN [r EXCEPT !.opts = IF Job(@).crs = "" THEN SelectSeq(@, LAMBDA o : o.key # "resolution") ELSE @, !.params = IF @ = "file" \/ Len(r.opts) % 3 = 0 THEN "file" ELSE "tags"] ELSE r
GenCases == LET all == TLCEval(All)  w == TLCEval([i \in DOMAIN all |-> TLCEval(Metric(all[i]))]) IN
  [i \in DOMAIN w |-> w[i] @@ [job |-> Job(w[i].opts), errors |-> SetToSeq(Errors(w[i])), crsof |-> [m \in DOMAIN w[i].images |-> CrsOf(w[i], w[i].images[m])]]]
=============================================================================
