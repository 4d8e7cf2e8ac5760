------------------------------ MODULE EqTrace ------------------------------
(***************************************************************************)
(* Validation of recorded comparisons of logs (C14, C35).  A case has      *)
(* files, a list of loads (file numbers) in the order they were done, for  *)
(* each load whether it came from a database, and the results of           *)
(* comparisons <<i, j, "==" result, "!=" result>> of loads; `parts` holds  *)
(* comparisons of what the logs consist of.                                *)
(***************************************************************************)
EXTENDS ULogObs, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, fi, logs
vars == <<ci, fi, logs>>
Case == Cases[ci]
Init == ci \in 1..Len(Cases) /\ fi = 1 /\ logs = <<>>
ReadFile == /\ fi <= Len(Case.files)
            /\ logs' = Append(logs, Run(Case.files[fi], DefaultOptions))
            /\ fi' = fi + 1 /\ UNCHANGED ci
Next == ReadFile
Spec == Init /\ [][Next]_vars

(* ---- when do two logs surely differ? -------------------------------------- *)
(* numeric equality of values of one type; values of different types are open *)
NormFloat(t, b) == IF t = T_float THEN (IF IsNaN4(b) THEN <<"nan">> ELSE IF b = <<0, 0, 0, 128>> THEN <<0, 0, 0, 0>> ELSE b)
                   ELSE IF t = T_double THEN (IF IsNaN8(b) THEN <<"nan">> ELSE IF b = <<0, 0, 0, 0, 0, 0, 0, 128>> THEN Zero64 ELSE b)
                   ELSE b
Norm(v) == CASE v.k = "n" /\ v.t = T_bool -> <<IF v.b[1] = 0 THEN 0 ELSE 1>>
             [] v.k = "n" -> NormFloat(v.t, v.b)
             [] OTHER -> v.b
Comparable(a, b) == a.k = b.k /\ (a.k = "n" => a.t = b.t)
DiffVal(a, b) == Comparable(a, b) /\ Norm(a) # Norm(b)
DiffMap(f, g, Diff(_, _)) == DOMAIN f # DOMAIN g \/ \E k \in DOMAIN f \cap DOMAIN g : Diff(f[k], g[k])
DiffSeq(s, t, Diff(_, _)) == Len(s) # Len(t) \/ \E i \in DOMAIN s : Diff(s[i], t[i])
Unequal(x, y) == x # y
DiffVals(s, t) == DiffSeq(s, t, DiffVal)
DiffMulti(m, n) == DiffSeq(m.lists, n.lists, DiffVals)
DiffParamMap(f, g) == DiffMap(f, g, DiffVal)
DiffChange(c, d) == c[1] # d[1] \/ c[2] # d[2] \/ DiffVal(c[3], d[3])
Key(d) == <<d.name, d.multi>>
DiffRows(d, e) ==
    d.fields # e.fields \/ Len(d.rows) # Len(e.rows)
    \/ \E k \in DOMAIN d.fields :
          LET a == Column(d, k)  b == Column(e, k)  t == d.fields[k][2] IN
          \E r \in DOMAIN a : a[r] # b[r] /\ NormFloat(t, a[r]) # NormFloat(t, b[r])
Differ(a, b) ==
    \/ a.start # b.start
    \/ DiffMap(a.formats, b.formats, Unequal)
    \/ DiffMap(a.infos, b.infos, DiffVal)
    \/ DiffMap(a.multi, b.multi, DiffMulti)
    \/ DiffParamMap(a.initial, b.initial)
    \/ DiffMap(a.defaults, b.defaults, DiffParamMap)
    \/ DiffSeq(a.changed, b.changed, DiffChange)
    \/ a.msgs # b.msgs
    \/ TagsOf(a) # TagsOf(b) \/ \E t \in TagsOf(a) : WithTag(a, t) # WithTag(b, t)
    \/ a.dropouts # b.dropouts
    \/ {Key(d) : d \in Datasets(a)} # {Key(d) : d \in Datasets(b)}
    \/ \E d \in Datasets(a) : \E e \in Datasets(b) : Key(d) = Key(e) /\ DiffRows(d, e)

(* each topic instance is subscribed once *)
Regular(f) == logs[f].out = "ok" /\ \A d, e \in Datasets(logs[f].log) : Key(d) = Key(e) => d = e
(* A log that comes from a database is the same log as the one from its file, if the file is undamaged
   and every format has fields.  Two objects of a database are also compared as objects of the database:
   only an object and itself are surely equal. *)
Storable(f) == /\ Regular(f) /\ ~logs[f].log.corrupt
               /\ \A n \in DOMAIN logs[f].log.formats : Len(logs[f].log.formats[n]) > 0
SurelySame(i, j) ==
    LET f == Case.loads[i] IN
    /\ Case.files[f] = Case.files[Case.loads[j]]
    /\ CASE Case.db[i] + Case.db[j] = 0 -> TRUE
         [] Case.db[i] + Case.db[j] = 1 -> Storable(f)
         [] OTHER -> i = j
Judge(c) ==
    LET fa == Case.loads[c[1]]  fb == Case.loads[c[2]]
    IN Clause(c[3] # 2 /\ c[4] # 2, "comparison fails")
       \cup Clause(c[3] = 2 \/ c[4] = 2 \/ c[4] = 1 - c[3], "== and != disagree")
       \cup (IF logs[fa].out # "ok" \/ logs[fb].out # "ok" THEN {}
             ELSE IF SurelySame(c[1], c[2]) THEN Clause(c[3] = 1, "same log, but not equal")
             ELSE IF Regular(fa) /\ Regular(fb) /\ Differ(logs[fa].log, logs[fb].log) THEN Clause(c[3] = 0, "different content, but equal")
             ELSE {})
(* ---- comparison of parts: <<kind, where in i, where in j, "==", "!=">> ------ *)
DatasetAt(log, name, multi) == CHOOSE d \in Datasets(log) : d.name = name /\ d.multi = multi
Part(log, kind, w) ==
    CASE kind = "fmt" -> <<w[1], log.formats[w[1]]>>
      [] kind = "msg" -> log.msgs[w[1]]
      [] kind = "tag" -> <<w[1], WithTag(log, w[1])[w[2]]>>
      [] kind = "drop" -> log.dropouts[w[1]]
      [] kind = "data" -> LET d == DatasetAt(log, w[1], w[2]) IN <<d.name, d.multi, d.id, d.tix, d.fields, d.rows>>
      [] kind = "field" -> DatasetAt(log, w[1], w[2]).fields[w[3]]
PartsDiffer(a, b, p) ==
    IF p[1] # "data" THEN Part(a, p[1], p[2]) # Part(b, p[1], p[3])
    ELSE LET d == DatasetAt(a, p[2][1], p[2][2])  e == DatasetAt(b, p[3][1], p[3][2]) IN
         Key(d) # Key(e) \/ d.id # e.id \/ DiffRows(d, e)
JudgePart(a, b, p) ==
    Clause(p[4] # 2 /\ p[5] = 1 - p[4], "comparison of parts: == and != disagree or fail: " \o p[1])
    \cup (IF Part(a, p[1], p[2]) = Part(b, p[1], p[3]) THEN Clause(p[4] = 1, "same part, but not equal: " \o p[1])
          ELSE IF PartsDiffer(a, b, p) THEN Clause(p[4] = 0, "different parts, but equal: " \o p[1])
          ELSE {})
JudgeParts(g) ==
    LET fa == Case.loads[g[1]]  fb == Case.loads[g[2]] IN
    IF Regular(fa) /\ Regular(fb)
    THEN UNION {JudgePart(logs[fa].log, logs[fb].log, g[3][k]) : k \in DOMAIN g[3]} ELSE {}
Symmetric == \A i, j \in DOMAIN Case.cmps :
    (Case.cmps[i][1] = Case.cmps[j][2] /\ Case.cmps[i][2] = Case.cmps[j][1])
        => Case.cmps[i][3] = Case.cmps[j][3]
NDiffer == Cardinality({i \in DOMAIN Case.cmps :
               Differ(logs[Case.loads[Case.cmps[i][1]]].log, logs[Case.loads[Case.cmps[i][2]]].log)})
Report == fi > Len(Case.files) =>
    PrintT(ToJson([case |-> ci, unspec |-> FALSE,
                   differ |-> NDiffer,
                   failed |-> UNION {Judge(Case.cmps[i]) : i \in DOMAIN Case.cmps}
                              \cup UNION {JudgeParts(Case.parts[i]) : i \in DOMAIN Case.parts}
                              \cup Clause(Symmetric, "equality is not symmetric")]))
(* law: surely different is symmetric and irreflexive *)
DifferLaw == fi > Len(Case.files) =>
    \A i, j \in {k \in DOMAIN logs : Regular(k)} : (Differ(logs[i].log, logs[j].log) <=> Differ(logs[j].log, logs[i].log))
                              /\ ~Differ(logs[i].log, logs[i].log)
=============================================================================
