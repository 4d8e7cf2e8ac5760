------------------------------ MODULE ULogObs ------------------------------
(***************************************************************************)
(* Comparison of a log of the specification with a log observed from the   *)
(* implementation (through its public attributes, recorded as JSON).       *)
(* Every operator gives the set of names of the clauses that fail.         *)
(***************************************************************************)
EXTENDS ULogReader, Json

Clause(ok, name) == IF ok THEN {} ELSE {name}

(* observed values may be of any type: compare their JSON text *)
Identical(a, b) == ToJson(a) = ToJson(b)
TextSet(s) == {ToJson(s[i]) : i \in DOMAIN s}
SamePairs(a, b) == Len(a) = Len(b) /\ TextSet(a) = TextSet(b)

(* observed value: <<"s", utf8>>, <<"b", bytes>>, <<"i", 16 byte two's
   complement>>, <<"f", float32 bytes, float64 bytes, 1 if float32 is exact>> *)
Extend16(t, raw) ==
    LET neg == t \in SignedTypes /\ raw[Len(raw)] >= 128 IN
    raw \o Repeat(IF neg THEN 255 ELSE 0, 16 - Len(raw))
IsNaN4(r) == r[4] % 128 = 127 /\ r[3] >= 128 /\ (r[3] % 128 # 0 \/ r[2] # 0 \/ r[1] # 0)
IsNaN8(r) == r[8] % 128 = 127 /\ r[7] >= 240 /\ (r[7] % 16 # 0 \/ \E i \in 1..6 : r[i] # 0)
SameF4(a, b) == a = b \/ (IsNaN4(a) /\ IsNaN4(b))
SameF8(a, b) == a = b \/ (IsNaN8(a) /\ IsNaN8(b))

SameValue(v, o) ==
    CASE v.k = "s" -> o[1] = "s" /\ o[2] = v.b
      [] v.k = "b" -> o[1] = "b" /\ o[2] = v.b
      [] v.t = T_float -> o[1] = "f" /\ o[4] = 1 /\ SameF4(o[2], v.b)
      [] v.t = T_double -> o[1] = "f" /\ SameF8(o[3], v.b)
      [] v.t = T_bool -> o[1] = "i" /\ o[2] = Extend16(T_uint8, <<IF v.b[1] = 0 THEN 0 ELSE 1>>)
      [] OTHER -> o[1] = "i" /\ o[2] = Extend16(v.t, v.b)

(* pairs: sequence of <<key, value>> in any order, each key once *)
SameMap(fcn, pairs, Same(_, _)) ==
    /\ Len(pairs) = Cardinality(DOMAIN fcn)
    /\ {pairs[i][1] : i \in DOMAIN pairs} = DOMAIN fcn
    /\ \A i \in DOMAIN pairs : Same(fcn[pairs[i][1]], pairs[i][2])
SameSeq(a, b, Same(_, _)) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(a[i], b[i])

SameFormat(f, o) == f = o
SameMultiEntry(m, o) == SameSeq(m.lists, o, LAMBDA x, y : SameSeq(x, y, SameValue))
SameChange(c, o) == c[1] = o[1] /\ c[2] = o[2] /\ SameValue(c[3], o[3])

FlagClauses(log, obs) ==
    Clause(obs.compat = log.compat /\ obs.compat0 = log.compat[1] % 2, "flags")
AppendedClause(log, obs) == Clause(obs.appended = log.incompat[1] % 2, "appended data flag")
MetaClauses(log, obs) ==
    FlagClauses(log, obs) \cup
    Clause(obs.start = log.start, "start_timestamp")
    \cup Clause(SameMap(log.formats, obs.formats, SameFormat), "message_formats")
    \cup Clause(SameMap(log.infos, obs.infos, SameValue), "msg_info_dict")
    \cup Clause(SameMap(log.multi, obs.multi, SameMultiEntry), "msg_info_multiple_dict")

DefaultsOf(log, g) == IF g \in DOMAIN log.defaults THEN log.defaults[g] ELSE TheEmptyFcn
DefaultClauses(log, obs) ==
    Clause(SameMap(DefaultsOf(log, 0), obs.defaults[1], SameValue), "default parameters (system)")
    \cup Clause(SameMap(DefaultsOf(log, 1), obs.defaults[2], SameValue),
                "default parameters (current setup)")
InitialClauses(log, obs) ==
    Clause(SameMap(log.initial, obs.initial, SameValue), "initial_parameters")
ChangedValuesClauses(log, obs) ==
    Clause(SameSeq(log.changed, obs.changed,
                   LAMBDA c, o : c[2] = o[2] /\ SameValue(c[3], o[3])), "changed_parameters (values)")
ParamClauses(log, obs) ==
    InitialClauses(log, obs) \cup DefaultClauses(log, obs)
    \cup Clause(SameSeq(log.changed, obs.changed, SameChange), "changed_parameters")

SameDataset(ds, o) ==
    /\ o.name = ds.name /\ o.multi = ds.multi /\ o.id = ds.id /\ o.tix = ds.tix
    /\ [i \in DOMAIN o.fields |-> o.fields[i]] = ds.fields
    /\ Len(o.cols) = Len(ds.fields)
    /\ \A k \in DOMAIN o.cols :
          \E m \in DOMAIN ds.fields :
             /\ o.cols[k].name = ds.fields[m][1]
             /\ o.cols[k].kind = ColKind(ds.fields[m][2])
             /\ o.cols[k].size = SizeOf[ds.fields[m][2]]
             /\ o.cols[k].rows = Column(ds, m)
Sorted(data) == \A i \in 1..(Len(data) - 1) : DatasetBefore(data[i], data[i + 1])
DataClauses(log, obs) ==
    LET dss == Datasets(log) IN
    Clause({<<obs.data[i].name, obs.data[i].multi>> : i \in DOMAIN obs.data}
             = {<<d.name, d.multi>> : d \in dss}
           /\ Len(obs.data) = Cardinality(dss), "set of datasets")
    \cup Clause(Sorted(obs.data), "order of datasets")
    \cup Clause(\A i \in DOMAIN obs.data :
                   \A d \in dss : (d.name = obs.data[i].name /\ d.multi = obs.data[i].multi)
                                  => SameDataset(d, obs.data[i]), "samples")

SameTags(log, pairs) ==
    /\ Len(pairs) = Cardinality(TagsOf(log))
    /\ {pairs[i][1] : i \in DOMAIN pairs} = TagsOf(log)
    /\ \A i \in DOMAIN pairs : pairs[i][2] = WithTag(log, pairs[i][1])
(* names of the levels '0'..'7' *)
LevelNames == <<S("EMERGENCY"), S("ALERT"), S("CRITICAL"), S("ERROR"), S("WARNING"), S("NOTICE"), S("INFO"), S("DEBUG")>>
LevelName(level) == IF level \in 48..55 THEN LevelNames[level - 47] ELSE S("UNKNOWN")
LevelsOf(msgs) == [i \in DOMAIN msgs |-> LevelName(msgs[i][1])]
TextClauses(log, obs) ==
    Clause(obs.msgs = log.msgs, "logged_messages")
    \cup Clause(SameTags(log, obs.tagged), "logged_messages_tagged")
    \cup Clause(obs.levels = LevelsOf(obs.msgs)
                /\ Len(obs.tlevels) = Len(obs.tagged)
                /\ \A i \in DOMAIN obs.tagged : obs.tlevels[i] = <<obs.tagged[i][1], LevelsOf(obs.tagged[i][2])>>,
                "names of the levels")
TimeClauses(log, obs) ==
    Clause(obs.dropouts = log.dropouts, "dropouts")
    \cup Clause(obs.last = log.last, "last_timestamp")

CorruptClause(log, obs) == Clause(obs.corrupt = (IF log.corrupt THEN 1 ELSE 0), "file_corruption")

AllClauses(log, obs) ==
    MetaClauses(log, obs) \cup ParamClauses(log, obs) \cup DataClauses(log, obs)
    \cup TextClauses(log, obs) \cup TimeClauses(log, obs)

Loaded(obs) == obs.outcome = "ok"
(* compare only if the load succeeded; a load that fails where the
   specification succeeds (or vice versa) is a failure by itself *)
Refusals == {"TypeError", "ValueError", "NotImplementedError", "UnicodeDecodeError"}
OutcomeClause(st, obs) ==
    Clause(IF st.out = "ok" THEN Loaded(obs)
           ELSE IF st.out = "unicode" THEN obs.outcome = "UnicodeDecodeError"
           ELSE ~Loaded(obs) /\ obs.outcome # "timeout", "outcome: " \o obs.outcome)
(* what precedes garbage is loaded, whatever follows it *)
IsPrefixOf_(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
KeptDataset(ds, data) ==
    \E i \in DOMAIN data :
        /\ data[i].name = ds.name /\ data[i].multi = ds.multi
        /\ \A m \in DOMAIN ds.fields : \E k \in DOMAIN data[i].cols :
              /\ data[i].cols[k].name = ds.fields[m][1]
              /\ IsPrefixOf_(Column(ds, m), data[i].cols[k].rows)
KeptClauses(log, obs) ==
    Clause(obs.start = log.start /\ SameMap(log.formats, obs.formats, SameFormat),
           "definitions before the damage")
    \cup Clause(IsPrefixOf_(log.msgs, obs.msgs) /\ IsPrefixOf_(log.dropouts, obs.dropouts)
                /\ Len(log.changed) <= Len(obs.changed)
                /\ \A i \in DOMAIN log.changed : SameChange(log.changed[i], obs.changed[i]),
                "messages before the damage")
    \cup Clause(\A t \in TagsOf(log) : \E i \in DOMAIN obs.tagged :
                   obs.tagged[i][1] = t /\ IsPrefixOf_(WithTag(log, t), obs.tagged[i][2]),
                "tagged messages before the damage")
    \cup Clause(\A ds \in Datasets(log) : KeptDataset(ds, obs.data), "samples before the damage")
With(st, obs, clauses) ==
    OutcomeClause(st, obs)
    \cup (IF st.out # "ok" \/ ~Loaded(obs) THEN {}
          ELSE IF st.kept # <<>> THEN KeptClauses(st.kept[1], obs)
          ELSE clauses)
=============================================================================
