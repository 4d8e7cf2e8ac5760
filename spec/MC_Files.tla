------------------------------ MODULE MC_Files ------------------------------
(***************************************************************************)
(* All sequences of runs of the tools on two logs whose outputs overlap,   *)
(* among other files.  Export prints every sequence of the full length.    *)
(***************************************************************************)
EXTENDS ULogFiles, Json, IOUtils
VARIABLES hist, before
vars == <<dir, hist, before>>
MaxLen == atoi(IOEnv.MAXLEN)

T(name, multi) == [name |-> S(name), multi |-> multi]
(* the CSV file of topic x_y of a.ulg has the name of that of topic y of a_x.ulg *)
LogDir == <<S("logs"), S("logs")>>
LogBase == <<S("a.ulg"), S("a_x.ULG")>>
Topics == <<{T("x_y", 0), T("x", 1), T("gps_dump", 0), T("vehicle_gps_position", 0)}, {T("y", 0), T("y", 1)}>>
Others == {S("logs/a_x_1.csv.bak"), S("work/track.kml~"), S("out/a_0_to_device"), S("logs/a_x_y_00.csv")}
Logs == {In(LogDir[l], LogBase[l]) : l \in {1, 2}}

(* kinds of runs: name, tool, out, dir, names, instance, whether it is refused on log 2 *)
K(kind, tool, out, d, names, i, ref) ==
    [kind |-> kind, tool |-> tool, out |-> S(out), dir |-> S(d), all |-> IF names = {} THEN 1 ELSE 0,
     names |-> SetToSeq({S(n) : n \in names}), instance |-> i, refused |-> ref]
Kinds == {K("csv", "csv", "", "", {}, 0, FALSE), K("csvout", "csv", "", "out", {}, 0, FALSE),
          K("csvsome", "csv", "", "", {"x_y", "y", "none"}, 0, FALSE),
          K("gps", "gps", "", "", {}, 0, FALSE), K("gpsout", "gps", "", "out", {}, 1, FALSE),
          K("kml", "kml", "", "", {}, 0, TRUE), K("kmlout", "kml", "out/t.kml", "", {}, 0, TRUE),
          K("params", "params", "", "", {}, 0, FALSE), K("paramsout", "params", "out/p.txt", "", {}, 0, FALSE),
          K("write", "write", "out/w.ulg", "", {}, 0, FALSE), K("read", "load", "", "", {}, 0, FALSE)}
RunOf(k, l) == [tool |-> k.tool, out |-> k.out, dir |-> k.dir, all |-> k.all, names |-> k.names, instance |-> k.instance,
                logdir |-> LogDir[l], base |-> LogBase[l]]
Refuses(k, l) == k.refused /\ l = 2
(* (tables, for speed) *)
OutsOf == [k \in Kinds |-> [l \in {1, 2} |-> IF Refuses(k, l) THEN {} ELSE OutputsOf(RunOf(k, l), Topics[l])]]
Outs(k, l) == OutsOf[k][l]
FreshOf == [k \in Kinds |-> [l \in {1, 2} |-> [p \in Outs(k, l) |-> <<k.kind, l>>]]]
Fresh(k, l) == FreshOf[k][l]

Init == dir = [p \in Logs \cup Others |-> <<"first", 0>>] /\ hist = <<>> /\ before = dir
Next == /\ Len(hist) < MaxLen
        /\ \E k \in Kinds, l \in {1, 2} :
              /\ IF Refuses(k, l) THEN RunRefused ELSE Done(Fresh(k, l))
              /\ hist' = Append(hist, <<k.kind, l>>) /\ before' = dir
              /\ Len(hist') = MaxLen => PrintT(ToJson([hist |-> hist']))
Spec == Init /\ [][Next]_vars

KindTable == [n \in {k.kind : k \in Kinds} |-> CHOOSE k \in Kinds : k.kind = n]
KindOf(h) == KindTable[h[1]]
Written == UNION {Outs(KindOf(hist[i]), hist[i][2]) : i \in DOMAIN hist}
(* logs and other files stay; nothing else appears *)
Intact == \A p \in Logs \cup Others : dir[p] = <<"first", 0>>
Nothing == DOMAIN dir = Logs \cup Others \cup Written
(* a file holds what the last run that writes it makes in an empty directory *)
LastMaker(p) == LET is == {i \in DOMAIN hist : p \in Outs(KindOf(hist[i]), hist[i][2])} IN
           CHOOSE i \in is : \A j \in is : j <= i
Determined == \A p \in Written : dir[p] = Fresh(KindOf(hist[LastMaker(p)]), hist[LastMaker(p)][2])[p]
(* the same run once more changes nothing; runs with different outputs can be exchanged *)
Idempotent == \A k \in Kinds, l \in {1, 2} :
    LET d == Over(Fresh(k, l), dir) IN Over(Fresh(k, l), d) = d
Apart == {x \in (Kinds \X {1, 2}) \X (Kinds \X {1, 2}) : Outs(x[1][1], x[1][2]) \cap Outs(x[2][1], x[2][2]) = {}}
Independent == \A x \in Apart :
    LET a == Fresh(x[1][1], x[1][2])  b == Fresh(x[2][1], x[2][2]) IN
    DOMAIN a # {} /\ DOMAIN b # {} => Over(a, Over(b, dir)) = Over(b, Over(a, dir))
Repeated == Len(hist) >= 2 /\ hist[Len(hist)] = hist[Len(hist) - 1] => dir = before
=============================================================================
