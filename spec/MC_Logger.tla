----------------------------- MODULE MC_Logger -----------------------------
(***************************************************************************)
(* Exhaustive model: a logger writes a small file from the alphabet of a   *)
(* profile, an adversary cuts, damages or appends; after every step the    *)
(* reader reads the file, and must tell the truth.                         *)
(*                                                                         *)
(* Every file that is reached is exported (PrintT) and replayed into the   *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS ULogWriter, Json, IOUtils

Profile == IOEnv.PROFILE
MaxDef == atoi(IOEnv.MAXDEF)
MaxData == atoi(IOEnv.MAXDATA)
ExportMod == atoi(IOEnv.EXPORTMOD)     \* export one file in so many

StartTime == <<100, 0, 0, 0, 0, 0, 0, 0>>
TS(n) == <<n % 256, n \div 256, 0, 0, 0, 0, 0, 0>>

(* ---- alphabets ----------------------------------------------------------- *)
F(name, fields) == [m |-> "format", name |-> name, fields |-> fields]
FieldOf(ty, n, name) == <<S(ty), n, S(name)>>
Fmt_t == F("t", <<FieldOf("uint64_t", 0, "timestamp"), FieldOf("uint8_t", 0, "x")>>)
(* same prefix, padding at the end, timestamp not first, array *)
Fmt_tt == F("tt", <<FieldOf("uint8_t", 2, "a"), FieldOf("uint64_t", 0, "timestamp"), FieldOf("uint8_t", 1, "_padding0")>>)
Fmt_in == F("in", <<FieldOf("int16_t", 0, "v")>>)
Fmt_c == F("c", <<FieldOf("uint64_t", 0, "timestamp"), FieldOf("in", 2, "p")>>)
Fmt_t2 == F("t", <<FieldOf("uint64_t", 0, "timestamp"), FieldOf("float", 0, "y")>>)

Sub(id, multi, name) == [m |-> "subscribe", id |-> id, multi |-> multi, name |-> name]
Row_t(ts, x) == TS(ts) \o <<x>>
Row_tt(ts, x) == <<x, 255>> \o TS(ts)
Row_c(ts, x) == TS(ts) \o <<x, 0, 255, x>>
Smp(id, ts, row, pad) == [m |-> "sample", id |-> id, ts |-> ts, row |-> row, pad |-> pad]
Bad(id, row) == [m |-> "bad", id |-> id, row |-> row]
Info_(k, v) == [m |-> "info", key |-> k, val |-> v]
Multi_(c, k, v) == [m |-> "multi", cont |-> c, key |-> k, val |-> v]
Param_(k, v) == [m |-> "param", key |-> k, val |-> v]
Default_(b, k, v) == [m |-> "default", bits |-> b, key |-> k, val |-> v]
Text_(lv, ts, b) == [m |-> "text", level |-> lv, ts |-> ts, text |-> b]
Tagged_(lv, tag, ts, b) == [m |-> "tagged", level |-> lv, tag |-> tag, ts |-> ts, text |-> b]
Drop(ms) == [m |-> "dropout", ms |-> ms]
Sync_ == [m |-> "sync"]
Unknown_(ty, body) == [m |-> "unknown", type |-> ty, body |-> body]

V_a == Txt(S("a"))
V_bad == Txt(<<97, 255, 98>>)
V_i == Num("int32_t", <<255, 255, 255, 255>>)
V_i2 == Num("int32_t", <<1, 0, 0, 128>>)
V_f == Num("float", <<0, 0, 192, 127>>)
V_u8 == Num("uint8_t", <<200>>)
V_u64 == Num("uint64_t", <<1, 0, 0, 0, 0, 0, 32, 0>>)
V_r == Raw("uint8_t[2]", <<0, 255>>)

S1 == Smp(1, 101, Row_t(101, 7), <<>>)
S1b == Smp(1, 300, Row_t(300, 8), <<>>)
S1old == Smp(1, 50, Row_t(50, 9), <<>>)
S2 == Smp(2, 102, Row_tt(102, 5), <<0>>)
S2np == Smp(2, 260, Row_tt(260, 6), <<>>)
S3 == Smp(256, 103, Row_t(103, 3), <<>>)
S4 == Smp(4, 104, Row_c(104, 4), <<>>)

(* base: what is written before anything else *)
DefBase == CASE Profile \in {"C01", "C09"} -> <<>>
             [] Profile \in {"C02"} -> <<Fmt_t>>
             [] OTHER -> <<Fmt_t, Fmt_tt>>
DataBase == CASE Profile \in {"C02", "C04", "C06", "C07", "C08", "C10"} -> <<Sub(1, 0, "t")>>
              [] Profile \in {"C12", "C13", "C14"} -> <<Sub(2, 0, "tt"), S2, Sub(1, 0, "t")>>
              [] OTHER -> <<>>

DefAlphabet ==
    CASE Profile = "C01" ->
           {Fmt_t, Fmt_t2, Fmt_in, Fmt_c, Info_("k", V_a), Info_("k", V_r), Info_("kk", V_u64),
            Info_("u", V_u8), Multi_(0, "k", V_a), Multi_(1, "k", V_bad), Multi_(0, "j", V_a), Multi_(1, "j", V_a)}
      [] Profile = "C02" ->
           {Param_("P", V_i), Param_("P", V_f), Param_("Q", V_i2), Default_(1, "P", V_i),
            Default_(2, "P", V_i2), Default_(3, "P", V_f), Default_(3, "Q", V_i)}
      [] Profile = "C06" -> {Info_("k", V_a), Param_("P", V_i), Multi_(0, "k", V_r)}
      [] Profile \in {"C12", "C13", "C14"} ->
           {Info_("k", V_a), Info_("k", V_r), Param_("P", V_f), Default_(3, "P", V_i), Default_(2, "Q", V_f),
            Multi_(0, "k", V_r), Multi_(1, "k", V_r)}
      [] Profile = "C09" -> {Fmt_t, Info_("k", V_a), Unknown_(1, <<65>>), Unknown_(90, <<0, 0, 65, 68>>),
                             Param_("P", V_i), Multi_(0, "k", V_a), Multi_(1, "k", V_a)}
      [] Profile = "C10" -> {Info_("k", V_bad), Info_("k", V_a), Multi_(0, "k", V_bad)}
      [] Profile = "C11" -> {Info_("k", V_a), Info_("k", V_u8), Param_("P", V_i), Default_(3, "P", V_i2),
                             Multi_(0, "k", V_r), Fmt_in}
      [] OTHER -> {}

DataAlphabet ==
    CASE Profile = "C01" ->
           {Sub(1, 0, "t"), Info_("k", V_i), Info_("n", V_a), Multi_(0, "k", V_a), Multi_(1, "k", V_r)}
      [] Profile = "C02" ->
           {S1, S1b, S1old, Param_("P", V_i), Param_("P", V_f), Default_(2, "Q", V_i), Default_(3, "P", V_i2)}
      [] Profile \in {"C03", "C05"} ->
           {Sub(1, 0, "t"), Sub(2, 0, "tt"), Sub(256, 1, "t"), S1, S1b, S2, S2np, S3}
           \cup (IF Profile = "C05" THEN {Text_(54, 101, S("a"))} ELSE {})
      [] Profile = "C04" ->
           {S1, S1b, S1old, Text_(54, 101, S("a")), Text_(51, 400, <<>>), Tagged_(54, 7, 102, S("b")),
            Tagged_(55, 256, 1, S("c")), Drop(5), Drop(65535)}
      [] Profile = "C06" ->
           {S1, S1b, Text_(54, 101, S("ab")), Tagged_(54, 7, 102, S("b")), Drop(5), Param_("P", V_i),
            Multi_(1, "k", V_r), Sync_}
      [] Profile = "C07" ->
           {S1, S1b, Sync_, Text_(54, 101, S("a")), Drop(9), Unknown_(90, <<9, 9>>), Bad(1, Row_t(101, 1) \o <<0>>),
            Bad(1, TS(9)), Bad(77, Row_t(102, 1))}
      [] Profile = "C08" ->
           {S1, S1b, Text_(54, 101, S("ab")), Sub(2, 0, "tt"), S2, Param_("P", V_i), Drop(3)}
      [] Profile = "C09" ->
           {Sub(1, 0, "t"), S1, Sync_, Unknown_(1, <<65>>), Unknown_(90, <<9, 0, 68, 1, 0>>),
            [m |-> "remove", id |-> 1], Text_(54, 101, S("a"))}
      [] Profile = "C10" ->
           {S1, Text_(54, 101, <<255>>), Text_(54, 101, <<195, 164>>), Tagged_(54, 7, 102, <<226, 130>>),
            Info_("k", V_bad), Multi_(1, "k", V_bad), Drop(5)}
      [] Profile \in {"C12", "C14"} ->
           {S1, S1b, S2np, Text_(54, 101, S("a")), Text_(54, 260, S("c")), Tagged_(54, 7, 102, S("b")),
            Tagged_(54, 1, 260, <<>>), Drop(5), Param_("P", V_i), Param_("Q", V_f), Info_("k", V_i), Multi_(1, "k", V_r)}
      [] Profile = "C13" ->
           {S1, S1b, S1old, Text_(54, 260, S("c")), Tagged_(54, 7, 260, S("b")),
            Tagged_(54, 1, 260, <<>>), Tagged_(54, 1, 102, S("x")), Drop(5), Param_("P", V_i)}
      [] Profile = "C11" ->
           {Sub(1, 0, "t"), S1, Text_(54, 101, S("a")), Info_("k", V_i), Param_("P", V_f), Tagged_(54, 7, 102, S("b"))}
      [] OTHER -> {}

GarbageSet == IF Profile = "C07"
              THEN {<<0, 0, 0>>, <<255, 255, 1>>, <<0, 0, 200, 5>>, <<17, 39, 90>>,
                    <<9, 0, 0, 47, 115, 19, 32, 37, 12>>}
              ELSE {}
CanCut == Profile \in {"C06", "C08"}
CanAppend == Profile = "C08"
HasFlags == Profile \in {"C08", "C11", "C09"}

-----------------------------------------------------------------------------
VARIABLES phase,    \* "def", "data", "lost" (damage not yet followed by a sync), "cut"
          body,     \* bytes behind the header (and flag message)
          offs,     \* sequence of file offsets of appended segments
          truth,    \* what was logged (and is to be found)
          n         \* messages written in this section
vars == <<phase, body, offs, truth, n>>

FlagSize == 43
Prefix == 16 + (IF HasFlags THEN FlagSize ELSE 0)
Pad3(s) == s \o Repeat(0, 3 - Len(s))
Compat == IF Profile \in {"C09", "C11"} THEN <<1, 128, 0, 0, 0, 0, 0, 255>> ELSE Repeat(0, 8)
FlagMsg == Frame(MB, Compat \o (IF offs = <<>> THEN Repeat(0, 8) ELSE <<1>> \o Repeat(0, 7))
                     \o FlattenSeq([i \in 1..3 |-> Enc64(Pad3(offs)[i])]))
File == Magic \o <<1>> \o StartTime \o (IF HasFlags THEN FlagMsg ELSE <<>>) \o body
FileLen == Prefix + Len(body)

RECURSIVE RecordAll(_, _, _)
RecordAll(ms, data, t) == IF ms = <<>> THEN t ELSE RecordAll(Tail(ms), data, Record(Head(ms), data, t))
BytesAll(ms) == FlattenSeq([i \in DOMAIN ms |-> BytesOf(ms[i])])

Init == /\ phase = "def" /\ n = 0 /\ offs = <<>>
        /\ body = BytesAll(DefBase)
        /\ truth = RecordAll(DefBase, FALSE, [Nothing EXCEPT !.start = StartTime, !.last = StartTime])

WriteDefinition == \E m \in DefAlphabet :
    /\ phase = "def" /\ n < MaxDef
    /\ body' = body \o BytesOf(m)
    /\ truth' = Record(m, FALSE, truth)
    /\ n' = n + 1 /\ UNCHANGED <<phase, offs>>

BeginData ==
    /\ phase = "def"
    /\ body' = body \o BytesAll(DataBase)
    /\ truth' = RecordAll(DataBase, TRUE, truth)
    /\ phase' = "data" /\ n' = 0 /\ UNCHANGED offs

(* the logger only logs what is subscribed, and subscribes to what is defined, once *)
Sensible(m) ==
    CASE m.m = "sample" -> m.id \in DOMAIN truth.subs
      [] m.m = "bad" -> TRUE
      [] m.m = "subscribe" -> Resolvable(truth.formats, S(m.name), 3) /\ m.id \notin DOMAIN truth.subs
      [] OTHER -> TRUE
(* without a subscription or text before it, an information message or a
   parameter belongs to the definition section *)
StillDefinitions(m) == /\ DataBase = <<>>
                       /\ truth.subs = TheEmptyFcn /\ truth.msgs = <<>> /\ truth.tagged = <<>>
                       /\ m.m \notin {"subscribe", "text", "tagged"}

WriteMessage == \E m \in DataAlphabet :
    /\ phase = "data" /\ n < MaxData /\ Sensible(m) /\ ~StillDefinitions(m)
    /\ body' = body \o BytesOf(m)
    /\ truth' = Record(m, TRUE, truth)
    /\ n' = n + 1 /\ UNCHANGED <<phase, offs>>

(* power loss while a message is written *)
CrashInData == \E m \in DataAlphabet : \E k \in 0..(Len(BytesOf(m)) - 1) :
    /\ CanCut /\ phase = "data" /\ n < MaxData /\ Sensible(m) /\ ~StillDefinitions(m)
    /\ body' = body \o SubSeq(BytesOf(m), 1, k)
    /\ phase' = "cut" /\ n' = n + 1 /\ UNCHANGED <<truth, offs>>
CrashInDefinitions == \E m \in DefAlphabet : \E k \in 0..(Len(BytesOf(m)) - 1) :
    /\ CanCut /\ phase = "def" /\ n < MaxDef
    /\ body' = body \o SubSeq(BytesOf(m), 1, k)
    /\ phase' = "cut" /\ n' = MaxData /\ UNCHANGED <<truth, offs>>
(* after the power loss, data (e.g. a crash dump) is appended to the file *)
AppendSegment ==
    /\ CanAppend /\ phase \in {"cut", "data"} /\ n <= MaxData /\ Len(offs) < 2
    /\ (offs # <<>> => offs[Len(offs)] < FileLen)
    /\ offs' = Append(offs, FileLen)
    /\ phase' = "data" /\ UNCHANGED <<body, truth, n>>

(* damage *)
Damage == \E g \in GarbageSet :
    /\ phase = "data" /\ n < MaxData
    /\ body' = body \o g
    /\ truth' = [truth EXCEPT !.corrupt = TRUE]
    /\ phase' = "lost" /\ n' = n + 1 /\ UNCHANGED offs
WriteLost == \E m \in DataAlphabet :
    /\ phase = "lost" /\ n < MaxData /\ m.m # "sync" /\ Sensible(m)
    /\ body' = body \o BytesOf(m)
    /\ n' = n + 1 /\ UNCHANGED <<phase, offs, truth>>
WriteSync ==
    /\ phase = "lost" /\ n < MaxData
    /\ body' = body \o BytesOf(Sync_)
    /\ phase' = "data" /\ n' = n + 1 /\ UNCHANGED <<offs, truth>>

Next == \/ WriteDefinition \/ BeginData \/ WriteMessage \/ CrashInData \/ CrashInDefinitions
        \/ AppendSegment \/ Damage \/ WriteLost \/ WriteSync
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Load(o) == Run(File, o)
Strict == [DefaultOptions EXCEPT !.strict = TRUE]

(* the segments of a file with offsets are read up to the limit only *)
Truthful == phase # "lost" =>
    LET st == Load(DefaultOptions) IN st.out = "ok" /\ Says(st.log, truth)
Corruption == phase \in {"data", "def"} => (Load(DefaultOptions).log.corrupt <=> truth.corrupt)
Contained == phase = "lost" =>
    LET st == Load(DefaultOptions) IN st.out = "ok" /\ AtLeast(st.log, truth) /\ st.log.corrupt
(* C05 *)
Filters == IF Profile = "C05" THEN {{}, {S("t")}, {S("tt")}, {S("t"), S("tt")}, {S("nope")}} ELSE {}
Projected == \A names \in Filters :
    LET st == Load([DefaultOptions EXCEPT !.all = FALSE, !.names = names]) IN
    /\ st.out = "ok" /\ SameMeta(st.log, truth) /\ SameTexts(st.log, truth)
    /\ SameRows(st.log, truth, names) /\ ~st.log.corrupt
(* C10: the strict policy fails exactly on invalid text *)
InvalidTextIn == \E v \in {V_bad.b, <<255>>, <<226, 130>>} :
    FindFrom(body, v, 0) >= 0
StrictPolicy == Profile = "C10" =>
    LET st == Load(Strict) IN
    /\ st.out = (IF InvalidTextIn THEN "unicode" ELSE "ok")
    /\ ~InvalidTextIn => Says(st.log, truth)
(* C11: the header-only load is the load of the definition part *)
RECURSIVE DefEnd(_)
DefEnd(st) == IF Kind(File, DefaultOptions, st) = "EndOfDefinitions" THEN st.pos
              ELSE DefEnd(Step(File, DefaultOptions, st))
HeaderOnly == Profile = "C11" =>
    LET h == Run(File, [DefaultOptions EXCEPT !.header = TRUE]).log
        c == Run(SubSeq(File, 1, DefEnd(Start)), DefaultOptions).log
    IN /\ h.formats = c.formats /\ h.infos = c.infos /\ h.multi = c.multi /\ h.initial = c.initial
       /\ h.defaults = c.defaults /\ h.compat = c.compat /\ h.start = c.start
       /\ Datasets(h) = {} /\ h.msgs = <<>> /\ h.tagged = <<>> /\ h.changed = <<>>

(* C12: a log whose streams are in time order is written without loss *)
InOrder(ts) == \A i \in 1..(Len(ts) - 1) : Le64(ts[i], ts[i + 1])
TimeOrdered(l) ==
    /\ \A i \in DOMAIN l.subs : InOrder([r \in DOMAIN l.subs[i].rows |->
                                 Slice(l.subs[i].rows[r], l.subs[i].toff, l.subs[i].toff + 8)])
    /\ InOrder([i \in DOMAIN l.msgs |-> l.msgs[i][2]])
    /\ \A t \in TagsOf(l) : InOrder([i \in DOMAIN WithTag(l, t) |-> WithTag(l, t)[i][2]])
Content(l) == [start |-> l.start, last |-> l.last, compat |-> l.compat, formats |-> l.formats, infos |-> l.infos,
               multi |-> l.multi, initial |-> l.initial, defaults |-> l.defaults, changed |-> l.changed,
               msgs |-> l.msgs, dropouts |-> l.dropouts,
               tagged |-> {<<t, WithTag(l, t)>> : t \in TagsOf(l)},
               data |-> {[name |-> d.name, multi |-> d.multi, fields |-> d.fields, rows |-> d.rows] : d \in Datasets(l)}]
RoundTrip == (Profile \in {"C12", "C13", "C14"} /\ phase = "data") =>
    LET l == Load(DefaultOptions).log IN
    TimeOrdered(l) => Content(Run(Write(l), DefaultOptions).log) = Content(l)
(* C13: canonical form, and writing is idempotent *)
WrittenCanonical == (Profile \in {"C12", "C13", "C14"} /\ phase = "data") =>
    LET l == Load(DefaultOptions).log
        w == Write(l)
        l2 == Run(w, DefaultOptions).log
    IN Canonical(w, l2) = {} /\ Write(l2) = w

Hash(s) == FoldLeft(LAMBDA a, x : (a * 31 + x + 7) % 65521, 1, s)
(* files are exported for the replay into the implementation *)
Export == (phase # "def" /\ (ExportMod <= 1 \/ Hash(body) % ExportMod = 0)) =>
             PrintT(ToJson([file |-> File, lost |-> phase = "lost"]))
=============================================================================
