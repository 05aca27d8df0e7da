-------------------------------- MODULE CsvMC -------------------------------
EXTENDS Csv
Full(k) == [filename |-> "im" \o ToString(k), x |-> "1." \o ToString(k), y |-> "2", z |-> "3", latitude |-> "4", longitude |-> "5", altitude |-> "6",
            omega |-> "7", phi |-> "8", kappa |-> "9", roll |-> "10", pitch |-> "11", yaw |-> "12", camera |-> "c" \o ToString(k)]
MCTables == {[k \in 1..n |-> Full(k)] : n \in 1..3}
Perms(s) == {<<s[1], s[2], s[3], s[4]>>, <<s[4], s[3], s[2], s[1]>>, <<s[3], s[1], s[4], s[2]>>}
Group(g) == CASE g = 1 -> <<"filename">> [] g = 2 -> <<"x", "y", "z">> [] g = 3 -> <<"longitude", "latitude", "altitude">>
              [] g = 4 -> <<"kappa", "omega", "phi">> [] g = 5 -> <<"roll", "pitch", "yaw">> [] g = 6 -> <<"camera">> [] g = 7 -> <<"note">>
              [] g = 8 -> <<"x", "z">> [] g = 9 -> <<"pitch", "roll">> [] g = 10 -> <<>>
Base == UNION {Perms(<<1, p, o, c>>) : p \in {2, 3, 8, 10}, o \in {4, 5, 9, 10}, c \in {6, 7}} \cup {<<2, 5, 4, 6>>, <<3, 5, 6, 7>>}
MCOrders == {Group(s[1]) \o Group(s[2]) \o Group(s[3]) \o Group(s[4]) : s \in Base} \cup {Legacy}
=============================================================================
