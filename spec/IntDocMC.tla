------------------------------ MODULE IntDocMC ------------------------------
EXTENDS IntDoc
F(k) == [key |-> k, val |-> IF k \in {"im_size", "sensor_size"} THEN <<"1", "2">> ELSE IF k = "k3" THEN <<"abc">> ELSE <<k>>]
Seqs(S) == {[i \in 1..Len(s) |-> F(s[i])] : s \in S}
OtyFields == Seqs({<<"im_size", "focal_len">>, <<"im_size", "focal_len", "cx", "k1">>, <<"focal_len", "im_size", "k4", "sensor_size">>, <<"im_size">>, <<"im_size", "focal_len", "c_x">>})
OsfmFields == Seqs({<<"width", "height", "focal">>, <<"width", "height", "focal_x", "focal_y", "c_x", "k3">>, <<"width", "height", "focal_x">>, <<"width", "height", "focal", "focal_y">>, <<"height", "focal", "k1">>, <<"width", "height", "focal", "cx">>})
Cam(id, t, f) == [id |-> id, as |-> id, type |-> t, fields |-> f]
MCDocs == {[layout |-> "oty", cams |-> <<Cam("a", t1, f1), Cam(id, t2, f2)>>] : t1 \in FrameTypes \cup {"rpc"}, t2 \in {"brown", "spherical"}, id \in {"a", "b"}, f1 \in OtyFields, f2 \in OtyFields}
  \cup {[layout |-> "osfm", cams |-> <<Cam("a", t1, f1)>>] : t1 \in {"perspective", "fisheye", "dual"}, f1 \in OsfmFields}
=============================================================================
