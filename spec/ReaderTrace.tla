---------------------------- MODULE ReaderTrace ----------------------------
(***************************************************************************)
(* Validation of recorded loads against ULogReader.                        *)
(*                                                                         *)
(* CASES (a JSON file named by the environment) is a sequence of cases:    *)
(*   files  the file contents,                                             *)
(*   loads  the loads that were done, in order: which file, which options, *)
(*   obs    what the implementation gave for each of them.                 *)
(* The machine replays the loads of one case (a case per initial state),   *)
(* one message per step; Verdict compares when all loads are done.         *)
(***************************************************************************)
EXTENDS ULogObs, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP

VARIABLES ci, li, st, results
vars == <<ci, li, st, results>>

Case == Cases[ci]
TheLoad == Case.loads[li]
File == Case.files[TheLoad.file]
OptionsOf(ld) == [all |-> ld.all = 1, names |-> RangeOf(ld.names),
                  strict |-> ld.strict = 1, header |-> ld.header = 1]
Opts == OptionsOf(TheLoad)

Init == /\ ci \in 1..Len(Cases)
        /\ li = 1
        /\ st = Start
        /\ results = <<>>

More == li <= Len(Case.loads)
Do(kinds) == /\ More
             /\ Kind(File, Opts, st) \in kinds
             /\ st' = Step(File, Opts, st)
             /\ UNCHANGED <<ci, li, results>>

ReadHeader == Do({"Header"})
ReadDefInfo == Do({"DefInfo"})
ReadDefMulti == Do({"DefMulti"})
ReadDefFormat == Do({"DefFormat"})
ReadDefParam == Do({"DefParam"})
ReadDefDefault == Do({"DefDefault"})
ReadDefFlags == Do({"DefFlags"})
ReadDefUnknown == Do({"DefUnknown"})
EndDefinitions == Do({"EndOfDefinitions"})
ReadInfo == Do({"Info"})
ReadMulti == Do({"Multi"})
ReadParam == Do({"Param"})
ReadDefault == Do({"Default"})
ReadSubscribe == Do({"Subscribe"})
ReadText == Do({"Text"})
ReadTaggedText == Do({"TaggedText"})
ReadSample == Do({"Sample"})
ReadDropout == Do({"Dropout"})
ReadSync == Do({"Sync"})
ReadGarbage == Do({"Garbage"})
ReadTailGarbage == Do({"TailGarbage"})
ReadUnknown == Do({"Unknown"})
EndSegment == Do({"EndOfSegment"})
(* the load is complete: start the next one with a fresh reader *)
FinishLoad == /\ More
              /\ st.phase = "done"
              /\ results' = Append(results, [log |-> st.log, out |-> st.out, kept |-> st.kept])
              /\ li' = li + 1
              /\ st' = Start
              /\ UNCHANGED ci

Next == \/ ReadHeader \/ ReadDefInfo \/ ReadDefMulti \/ ReadDefFormat \/ ReadDefParam
        \/ ReadDefDefault \/ ReadDefFlags \/ ReadDefUnknown \/ EndDefinitions
        \/ ReadInfo \/ ReadMulti \/ ReadParam \/ ReadDefault \/ ReadSubscribe
        \/ ReadText \/ ReadTaggedText \/ ReadSample \/ ReadDropout \/ ReadSync
        \/ ReadGarbage \/ ReadTailGarbage \/ ReadUnknown \/ EndSegment \/ FinishLoad

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Laws of the reader, checked in every state of every replay               *)
RECURSIVE IsPrefixSeq(_, _)
IsPrefixSeq(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
TimeLaw == More => Le64(st.log.start, st.log.last)
(* what is loaded is never taken back *)
AppendOnly == [][li' = li =>
                  /\ IsPrefixSeq(st.log.msgs, st'.log.msgs)
                  /\ IsPrefixSeq(st.log.tagged, st'.log.tagged)
                  /\ IsPrefixSeq(st.log.dropouts, st'.log.dropouts)
                  /\ IsPrefixSeq(st.log.changed, st'.log.changed)
                  /\ DOMAIN st.log.formats \subseteq DOMAIN st'.log.formats
                  /\ (st.log.corrupt => st'.log.corrupt)
                  /\ Le64(st.log.last, st'.log.last) \/ st.phase = "header"]_vars

-----------------------------------------------------------------------------
(* Verdicts: one per property *)
R(i) == results[i]
O(i) == Case.obs[i]
(* integers of more than 63 bits do not fit into a database *)
DoesNotFit(log) == Prop \in {"C15", "C22"} /\ log.last[8] >= 128
UnspecCase == \E i \in DOMAIN results : R(i).out = "unspec" \/ DoesNotFit(R(i).log)

(* datasets of an observation as a set of comparable records *)
DataSet(obs, Sel(_)) == {ToJson(obs.data[i]) : i \in {j \in DOMAIN obs.data : Sel(obs.data[j].name)}}

(* C05: the filtered loads are projections of the first, unfiltered load *)
ProjectionClauses ==
    UNION {IF Loaded(O(1)) /\ Loaded(O(i)) /\ ~OptionsOf(Case.loads[i]).all
           THEN LET names == OptionsOf(Case.loads[i]).names IN
                Clause(DataSet(O(i), LAMBDA n : TRUE) = DataSet(O(1), LAMBDA n : n \in names),
                       "projection of the datasets")
                \cup Clause(SamePairs(O(i).formats, O(1).formats) /\ SamePairs(O(i).infos, O(1).infos)
                            /\ SamePairs(O(i).multi, O(1).multi) /\ O(i).start = O(1).start,
                            "metadata unchanged by the filter")
                \cup Clause(SamePairs(O(i).initial, O(1).initial)
                            /\ \A g \in {1, 2} : SamePairs(O(i).defaults[g], O(1).defaults[g])
                            /\ Identical([k \in DOMAIN O(i).changed |-> <<O(i).changed[k][2], O(i).changed[k][3]>>],
                                    [k \in DOMAIN O(1).changed |-> <<O(1).changed[k][2], O(1).changed[k][3]>>]),
                            "parameter values unchanged by the filter")
                \cup Clause(Identical(O(i).msgs, O(1).msgs) /\ SamePairs(O(i).tagged, O(1).tagged),
                            "texts unchanged by the filter")
                \cup Clause(O(i).corrupt = O(1).corrupt, "excluded data is not corruption")
           ELSE {} : i \in 2..Len(results)}

(* C11: a header-only load is the definition part *)
HeaderOnlyClauses(i) ==
    LET log == R(i).log  obs == O(i) IN
    MetaClauses(log, obs) \cup ParamClauses(log, obs) \cup AppendedClause(log, obs)
    \cup Clause(obs.data = <<>> /\ obs.msgs = <<>> /\ obs.tagged = <<>> /\ obs.changed = <<>>
                /\ obs.dropouts = <<>>, "no content of the data section")
    \cup Clause(obs.start = log.start /\ obs.last = log.start, "time stamps of the header")

(* C15: what a database keeps besides *)
StoredClauses(log, obs) ==
    Clause(obs.incompat = log.incompat, "incompatible flags")
    \cup Clause(Identical(obs.offsets, log.offsets), "appended data offsets")
    \cup Clause(obs.sha_ok = 1, "checksum")

(* C22: the JSON texts of the series: obs.json = sequence of datasets, each   *)
(* <<name, instance, <<<<field, valid, <<<<time stamp, value>>...>>>>...>>>>  *)
Finite(t, raw) == IF t = T_float THEN ~(raw[4] % 128 = 127 /\ raw[3] >= 128)
                  ELSE ~(raw[8] % 128 = 127 /\ raw[7] >= 240)
JsonCell(t, raw, o) ==
    IF t \in {T_float, T_double}
    THEN IF ~Finite(t, raw) THEN o[1] = "n"
         ELSE /\ o[1] = "f"
              /\ IF t = T_float THEN o[4] = 1 /\ o[2] = raw ELSE o[3] = raw
    ELSE o[1] = "i" /\ o[2] = Extend16(IF ColKind(t) = "i" THEN T_int8 ELSE T_uint8, raw)
    \* only the sign of the type matters for the extension
Stamps(ds) == Column(ds, CHOOSE m \in DOMAIN ds.fields : ds.fields[m][1] = TimestampName)
Distinct(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)
JsonField(ds, m, o) ==
    LET col == Column(ds, m)  ts == Stamps(ds)  got == o[3] IN
    /\ o[2] = 1
    /\ Len(got) = Len(ts)
    /\ {got[i][1] : i \in DOMAIN got} = {ts[i] : i \in DOMAIN ts}
    /\ \A i \in DOMAIN got : \E r \in DOMAIN ts : ts[r] = got[i][1] /\ JsonCell(ds.fields[m][2], col[r], got[i][2])
JsonClauses(log, obs) ==
    LET dss == {d \in Datasets(log) : Distinct(Stamps(d))} IN
    Clause(obs.same = 1, "everything else in the database is as without the option")
    \cup Clause(\A ds \in dss : \E i \in DOMAIN obs.json :
                  /\ obs.json[i][1] = ds.name /\ obs.json[i][2] = ds.multi
                  /\ Len(obs.json[i][3]) = Len(ds.fields)
                  /\ \A m \in DOMAIN ds.fields : \E k \in DOMAIN obs.json[i][3] :
                        obs.json[i][3][k][1] = ds.fields[m][1] /\ JsonField(ds, m, obs.json[i][3][k]),
              "JSON of a series")

Per(i) ==
    CASE Prop = "C01" -> With(R(i), O(i), MetaClauses(R(i).log, O(i)))
      [] Prop = "C02" -> With(R(i), O(i), ParamClauses(R(i).log, O(i)))
      [] Prop = "C03" -> With(R(i), O(i), DataClauses(R(i).log, O(i)))
      [] Prop = "C04" -> With(R(i), O(i), TextClauses(R(i).log, O(i)) \cup TimeClauses(R(i).log, O(i)))
      [] Prop = "C11" /\ OptionsOf(Case.loads[i]).header -> With(R(i), O(i), HeaderOnlyClauses(i))
      [] Prop = "C05" -> With(R(i), O(i), DataClauses(R(i).log, O(i)))
      [] Prop = "C07" -> With(R(i), O(i), AllClauses(R(i).log, O(i)) \cup CorruptClause(R(i).log, O(i)))
      [] Prop = "C08" -> With(R(i), O(i), AllClauses(R(i).log, O(i)) \cup AppendedClause(R(i).log, O(i)) \cup CorruptClause(R(i).log, O(i)))
      [] Prop = "C15" -> With(R(i), O(i), AllClauses(R(i).log, O(i)) \cup StoredClauses(R(i).log, O(i)))
      [] Prop = "C22" -> With(R(i), O(i), JsonClauses(R(i).log, O(i)))
      [] OTHER -> With(R(i), O(i), AllClauses(R(i).log, O(i)))

Verdict == UNION {Per(i) : i \in DOMAIN results}
           \cup (IF Prop = "C05" THEN ProjectionClauses ELSE {})

Complete_ == li > Len(Case.loads)
(* one line per case, so that one run judges every case *)
Report == Complete_ =>
              PrintT(ToJson([case |-> ci, unspec |-> UnspecCase,
                             failed |-> IF UnspecCase THEN {} ELSE Verdict]))
=============================================================================
