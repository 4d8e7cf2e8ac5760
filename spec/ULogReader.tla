----------------------------- MODULE ULogReader -----------------------------
(***************************************************************************)
(* Reading a ULog file, as pyulog.core.ULog does it, one message per step. *)
(*                                                                         *)
(* A reader state `st` has                                                 *)
(*   phase  "header" -> "definitions" -> "data" -> "done"                  *)
(*   pos    file position (0-based)                                        *)
(*   limit  end of the current segment (Inf for the last one)              *)
(*   segs   limits of the segments still to be read after this one         *)
(*   log    everything that is loaded so far                               *)
(*   out    "ok" or why the file is refused                                *)
(*   kept   what was loaded before garbage that no sync message follows;   *)
(*          what is recovered behind it is not specified                   *)
(* f is the file (bytes), o are the options of the load:                   *)
(*   o.all    TRUE if no topic filter is given                             *)
(*   o.names  the set of topic names of the filter                         *)
(*   o.strict TRUE if invalid text is an error                             *)
(*   o.header TRUE if only the header is to be parsed                      *)
(***************************************************************************)
EXTENDS ULogTypes

Inf == 1000000000

EmptyLog ==
    [start |-> Zero64, last |-> Zero64, version |-> 0,
     compat |-> Repeat(0, 8), incompat |-> Repeat(0, 8), offsets |-> <<>>,
     formats |-> TheEmptyFcn, infos |-> TheEmptyFcn, multi |-> TheEmptyFcn,
     initial |-> TheEmptyFcn, defaults |-> TheEmptyFcn, changed |-> <<>>,
     msgs |-> <<>>, tagged |-> <<>>, dropouts |-> <<>>, order |-> <<>>,
     subs |-> TheEmptyFcn, closed |-> <<>>, filtered |-> {}, corrupt |-> FALSE,
     hasSync |-> TRUE, syncs |-> 0]

Start == [phase |-> "header", pos |-> 0, limit |-> Inf, segs |-> <<>>,
          log |-> EmptyLog, out |-> "ok", kept |-> <<>>]

Put(fcn, k, v) == (k :> v) @@ fcn

-----------------------------------------------------------------------------
(* Results of interpreting one message: the new log, or why it failed.      *)
(*   "ok"       fine                                                        *)
(*   "short"    the payload does not fit the message type (or an unknown    *)
(*              format is named)                                            *)
(*   "index"    a text does not have the expected parts                     *)
(*   "unicode"  invalid text under the strict policy                        *)
(*   "refused"  unknown incompatible flags                                  *)
(*   "unspec"   this specification does not say what happens                *)
Ok(log) == [err |-> "ok", log |-> log]
Err(e, log) == [err |-> e, log |-> log]

BadText(o, s) == o.strict /\ ~ValidUtf8(s)

(* <length, "type key", value>: information and parameters *)
ParseKV(o, p) ==
    IF Len(p) < 1 THEN [err |-> "short"]
    ELSE LET klen == p[1]
             tk == Slice(p, 1, 1 + klen)
             parts == Split(Clean(tk), Space)
             raw == From(p, 1 + klen)
         IN IF BadText(o, tk) THEN [err |-> "unicode"]
            ELSE IF Len(parts) < 2 THEN [err |-> "index"]
            ELSE LET type == parts[1] IN
                 IF StartsWith(type, CharArrayPrefix)
                 THEN IF BadText(o, raw) THEN [err |-> "unicode"]
                      ELSE [err |-> "ok", key |-> parts[2],
                            val |-> [k |-> "s", t |-> type, b |-> Clean(raw)]]
                 ELSE IF type \in BasicTypes
                 THEN IF Len(raw) # SizeOf[type] THEN [err |-> "short"]
                      ELSE [err |-> "ok", key |-> parts[2],
                            val |-> [k |-> IF type = T_char THEN "b" ELSE "n",
                                     t |-> type, b |-> raw]]
                 ELSE [err |-> "ok", key |-> parts[2],
                       val |-> [k |-> "b", t |-> type, b |-> raw]]

Info(o, log, p) ==
    LET kv == ParseKV(o, p) IN
    IF kv.err # "ok" THEN Err(kv.err, log)
    ELSE Ok([log EXCEPT !.infos = Put(@, kv.key, kv.val)])

(* a continuation extends the latest entry of its own key *)
Multi(o, log, p) ==
    LET kv == ParseKV(o, From(p, 1)) IN
    IF Len(p) < 1 THEN Err("short", log)
    ELSE IF kv.err # "ok" THEN Err(kv.err, log)
    ELSE LET old == log.multi[kv.key]
             new == IF kv.key \notin DOMAIN log.multi
                    THEN [t |-> kv.val.t, lists |-> <<<<kv.val>>>>]
                    ELSE IF p[1] # 0
                    THEN [old EXCEPT !.lists[Len(old.lists)] = Append(@, kv.val)]
                    ELSE [old EXCEPT !.lists = Append(@, <<kv.val>>)]
         IN Ok([log EXCEPT !.multi = Put(@, kv.key, new)])

InitialParam(o, log, p) ==
    LET kv == ParseKV(o, p) IN
    IF kv.err # "ok" THEN Err(kv.err, log)
    ELSE Ok([log EXCEPT !.initial = Put(@, kv.key, kv.val)])

ChangedParam(o, log, p) ==
    LET kv == ParseKV(o, p) IN
    IF kv.err # "ok" THEN Err(kv.err, log)
    ELSE Ok([log EXCEPT !.changed = Append(@, <<log.last, kv.key, kv.val>>)])

(* groups: 0 system (bit 0), 1 current setup (bit 1) *)
Groups(bits) == {g \in {0, 1} : (bits \div (IF g = 0 THEN 1 ELSE 2)) % 2 = 1}
DefaultParam(o, log, p) ==
    LET kv == ParseKV(o, From(p, 1)) IN
    IF Len(p) < 1 THEN Err("short", log)
    ELSE IF kv.err # "ok" THEN Err(kv.err, log)
    ELSE IF p[1] > 3 THEN Err("unspec", log)
    ELSE LET gs == Groups(p[1])
             old(g) == IF g \in DOMAIN log.defaults THEN log.defaults[g] ELSE TheEmptyFcn
         IN Ok([log EXCEPT !.defaults =
                [g \in gs \cup DOMAIN log.defaults |->
                    IF g \in gs THEN Put(old(g), kv.key, kv.val) ELSE log.defaults[g]]])

(* "type name" or "type[n] name" *)
ParseField(s) ==
    LET parts == Split(s, Space)
        ty == parts[1]
        a == IndexByte(ty, OpenB, 0)
        b == IndexByte(ty, CloseB, 0)
        num == Slice(ty, a + 1, b)
    IN IF Len(parts) < 2 THEN [err |-> "index"]
       ELSE IF a = Len(ty) THEN [err |-> "ok", field |-> <<ty, 0, parts[2]>>]
       ELSE IF b = Len(ty) \/ ~IsDigits(num) THEN [err |-> "unspec"]
       ELSE [err |-> "ok", field |-> <<Slice(ty, 0, a), ParseInt(num), parts[2]>>]

Format(o, log, p) ==
    LET arr == Split(Clean(p), Colon)
        fields == [i \in 1..Len(SelectSeq(Split(arr[2], Semicolon), LAMBDA x : Len(x) > 0)) |->
                      ParseField(SelectSeq(Split(arr[2], Semicolon), LAMBDA x : Len(x) > 0)[i])]
    IN IF BadText(o, p) THEN Err("unicode", log)
       ELSE IF Len(arr) < 2 THEN Err("index", log)
       ELSE IF \E i \in DOMAIN fields : fields[i].err = "unspec" THEN Err("unspec", log)
       ELSE IF \E i \in DOMAIN fields : fields[i].err = "index" THEN Err("index", log)
       ELSE Ok([log EXCEPT !.formats =
                  Put(@, arr[1], [i \in DOMAIN fields |-> fields[i].field])])

(* flag bits: compatible flags, incompatible flags, offsets of appended data *)
RECURSIVE DropZeros(_)
DropZeros(s) == IF Len(s) > 0 /\ s[Len(s)] = Zero64 THEN DropZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
FlagBits(o, log, p) ==
    IF Len(p) < 40 THEN Err("short", log)
    ELSE LET inc == Slice(p, 8, 16)
             l == [log EXCEPT !.compat = Slice(p, 0, 8), !.incompat = inc,
                              !.offsets = DropZeros(<<Slice(p, 16, 24), Slice(p, 24, 32), Slice(p, 32, 40)>>)]
         IN IF inc[1] \div 2 # 0 \/ \E i \in 2..8 : inc[i] # 0 THEN Err("refused", l)
            ELSE Ok(l)

-----------------------------------------------------------------------------
(* Subscriptions: a format flattened to named basic fields                  *)
RECURSIVE Resolvable(_, _, _)
Resolvable(formats, name, depth) ==
    /\ name \in DOMAIN formats
    /\ \A i \in DOMAIN formats[name] :
          LET t == formats[name][i][1] IN
          t \in BasicTypes \/ (depth > 0 /\ Resolvable(formats, t, depth - 1))

Indexed(n, i) == n \o <<OpenB>> \o Digits(i) \o <<CloseB>>

RECURSIVE Flatten(_, _, _)
Flatten(formats, prefix, name) ==
    LET fmt == formats[name]
        one(fld) ==
            LET t == fld[1]  n == fld[2]  fn == prefix \o fld[3] IN
            IF t \in BasicTypes
            THEN IF n = 0 THEN <<<<fn, t>>>>
                 ELSE [i \in 1..n |-> <<Indexed(fn, i - 1), t>>]
            ELSE IF n = 0 THEN Flatten(formats, Append(fn, Dot), t)
                 ELSE FlattenSeq([i \in 1..n |->
                         Flatten(formats, Append(Indexed(fn, i - 1), Dot), t)])
    IN FlattenSeq([i \in DOMAIN fmt |-> one(fmt[i])])

RECURSIVE StripPadding(_)
StripPadding(fs) == IF Len(fs) > 0 /\ StartsWith(fs[Len(fs)][1], PaddingPrefix)
                    THEN StripPadding(SubSeq(fs, 1, Len(fs) - 1)) ELSE fs

SumSizes(fs) == FoldLeft(LAMBDA a, x : a + SizeOf[x[2]], 0, fs)
(* byte offset of every field *)
Offsets(fs) == FoldLeft(LAMBDA a, x : [next |-> a.next + SizeOf[x[2]], offs |-> Append(a.offs, a.next)],
                        [next |-> 0, offs |-> <<>>], fs).offs

MakeSub(formats, id, multi, name) ==
    LET all == Flatten(formats, <<>>, name)
        fs == StripPadding(all)
        offs == Offsets(fs)
        tix == CHOOSE i \in DOMAIN fs : fs[i][1] = TimestampName
    IN [id |-> id, name |-> name, multi |-> multi, tix |-> tix - 1, fields |-> fs, offs |-> offs,
        size |-> SumSizes(fs), max |-> SumSizes(all), toff |-> offs[tix], rows |-> <<>>]

HasTimestamp(formats, name) ==
    LET fs == StripPadding(Flatten(formats, <<>>, name)) IN
    /\ \E i \in DOMAIN fs : fs[i] = <<TimestampName, T_uint64>>
    /\ Cardinality({fs[i][1] : i \in DOMAIN fs}) = Len(fs)

Wanted(o, name) == o.all \/ name \in o.names

Subscribe(o, log, p) ==
    LET id == U16(p, 1)
        name == Clean(From(p, 3))
        dup == id \in DOMAIN log.subs
        l == IF dup /\ Len(log.subs[id].rows) > 0
             THEN [log EXCEPT !.closed = Append(@, log.subs[id])] ELSE log
    IN IF Len(p) < 3 THEN Err("short", log)
       ELSE IF BadText(o, From(p, 3)) THEN Err("unicode", log)
       ELSE IF ~Resolvable(log.formats, name, 6) THEN Err("short", log)
       ELSE IF ~HasTimestamp(log.formats, name) THEN Err("unspec", log)
       ELSE IF Wanted(o, name)
       THEN Ok([l EXCEPT !.subs = Put(@, id, MakeSub(log.formats, id, p[1], name))])
       ELSE Ok([log EXCEPT !.filtered = @ \cup {id}])

Sample(o, log, p) ==
    LET id == U16(p, 0)
        n == Len(p) - 2
        sub == log.subs[id]
        ts == Slice(p, 2 + sub.toff, 10 + sub.toff)
    IN IF Len(p) < 2 THEN Err("short", log)
       ELSE IF id \in DOMAIN log.subs
       THEN IF n < sub.size \/ n > sub.max
            THEN Ok([log EXCEPT !.corrupt = TRUE])
            ELSE Ok([log EXCEPT !.subs[id].rows = Append(@, Slice(p, 2, 2 + sub.size)),
                                !.last = Max64(@, ts)])
       ELSE IF id \in log.filtered THEN Ok(log)
       ELSE Ok([log EXCEPT !.corrupt = TRUE])

Text(o, log, p) ==
    IF Len(p) < 9 THEN Err("short", log)
    ELSE IF BadText(o, From(p, 9)) THEN Err("unicode", log)
    ELSE Ok([log EXCEPT !.msgs = Append(@, <<p[1], Slice(p, 1, 9), Clean(From(p, 9))>>)])

TaggedText(o, log, p) ==
    IF Len(p) < 11 THEN Err("short", log)
    ELSE IF BadText(o, From(p, 11)) THEN Err("unicode", log)
    ELSE Ok([log EXCEPT !.tagged =
                Append(@, <<U16(p, 1), p[1], Slice(p, 3, 11), Clean(From(p, 11))>>)])

Dropout(o, log, p) ==
    IF Len(p) # 2 THEN Err("short", log)
    ELSE Ok([log EXCEPT !.dropouts = Append(@, <<log.last, U16(p, 0)>>)])

Sync(o, log, p) == Ok([log EXCEPT !.syncs = @ + 1])

-----------------------------------------------------------------------------
(* Steps of the reader                                                      *)
Finish(st, out) == [st EXCEPT !.phase = "done", !.out = out]

HeaderStep(f, st) ==
    IF Len(f) < 16 \/ SubSeq(f, 1, 7) # Magic THEN Finish(st, "refused")
    ELSE [st EXCEPT !.phase = "definitions", !.pos = 16,
                    !.log.version = f[8], !.log.start = SubSeq(f, 9, 16),
                    !.log.last = SubSeq(f, 9, 16)]

(* the message at the position of st, if it is complete *)
HasHeader(f, st) == st.pos + 3 <= Len(f)
Size(f, st) == U16(f, st.pos)
Type(f, st) == f[st.pos + 3]
Complete(f, st) == HasHeader(f, st) /\ st.pos + 3 + Size(f, st) <= Len(f)
EndPos(f, st) == st.pos + 3 + Size(f, st)
Payload(f, st) == SubSeq(f, st.pos + 4, st.pos + 3 + Size(f, st))

(* an unknown type that cannot be the start of a message *)
Implausible(f, st) == Type(f, st) = 0 \/ Size(f, st) = 0 \/ Size(f, st) > 10000

(* end of the definition section: the first segment begins here *)
ToData(f, o, st) ==
    IF o.header THEN Finish(st, "ok")
    ELSE LET offs == [i \in DOMAIN st.log.offsets |-> Small64(st.log.offsets[i], Inf - 1)]
         IN IF st.log.incompat[1] % 2 = 1 /\ Len(offs) > 0
            THEN [st EXCEPT !.phase = "data", !.limit = offs[1], !.segs = Append(Tail(offs), Inf)]
            ELSE [st EXCEPT !.phase = "data", !.limit = Inf, !.segs = <<>>]

AfterDefinition(st, end, r) ==
    CASE r.err = "ok" -> [st EXCEPT !.pos = end, !.log = r.log]
      [] r.err = "index" -> [st EXCEPT !.pos = end, !.log.corrupt = TRUE]
      [] OTHER -> Finish([st EXCEPT !.log = r.log], r.err)

DefinitionStep(f, o, st, Effect(_, _, _)) ==
    AfterDefinition(st, EndPos(f, st), Effect(o, st.log, Payload(f, st)))

SkipUnknownDefinition(f, st) ==
    IF Implausible(f, st) THEN [st EXCEPT !.pos = @ + 1, !.log.corrupt = TRUE]
    ELSE [st EXCEPT !.pos = EndPos(f, st)]

(* a segment ends at the end of the file, at an incomplete message, and at a
   message that reaches beyond the limit of the segment.  What cannot be a
   message does not count as incomplete: its size means nothing. *)
NotAMessage(f, st) == /\ HasHeader(f, st) /\ st.pos + 3 <= st.limit
                      /\ Type(f, st) \notin DataTypes /\ Implausible(f, st)
TailGarbage(f, st) == ~Complete(f, st) /\ st.log.hasSync /\ NotAMessage(f, st)
SegmentEnds(f, st) == ~Complete(f, st) \/ EndPos(f, st) > st.limit
NextSegment(st) ==
    IF st.limit = Inf THEN Finish(st, "ok")
    ELSE [st EXCEPT !.pos = st.limit, !.limit = Head(st.segs), !.segs = Tail(st.segs)]

AfterData(st, end, r) ==
    CASE r.err = "ok" -> [st EXCEPT !.pos = end, !.log = r.log]
      [] r.err \in {"index", "short"} -> [st EXCEPT !.pos = end, !.log.corrupt = TRUE]
      [] OTHER -> Finish([st EXCEPT !.log = r.log], r.err)

DataStep(f, o, st, Effect(_, _, _)) ==
    AfterData(st, EndPos(f, st), Effect(o, st.log, Payload(f, st)))

(* Garbage: advance by one byte, or to behind the next sync sequence.       *)
Resync(f, st) ==
    LET from == st.pos + 1
        at == FindFrom(f, SyncBytes, from)
        s == [st EXCEPT !.log.corrupt = TRUE]
    IN IF ~st.log.hasSync THEN [s EXCEPT !.pos = from]
       ELSE IF at >= 0 THEN [s EXCEPT !.pos = at + 8]
       ELSE [s EXCEPT !.pos = from, !.log.hasSync = FALSE, !.kept = <<st.log>>]

(* The same where the size of the garbage is larger than the rest of the
   file: without a sync sequence this is the end. *)
ResyncTail(f, st) ==
    LET at == FindFrom(f, SyncBytes, st.pos + 1)
        s == [st EXCEPT !.log.corrupt = TRUE]
    IN IF at >= 0 THEN [s EXCEPT !.pos = at + 8]
       ELSE NextSegment([s EXCEPT !.log.hasSync = FALSE, !.kept = <<st.log>>])

(* Unknown message: skipped, unless a sync sequence is within its payload   *)
SkipUnknown(f, st) ==
    LET at == FindFrom(Payload(f, st), SyncBytes, 0)
    IN IF st.log.hasSync /\ at >= 0
       THEN [st EXCEPT !.log.corrupt = TRUE, !.pos = @ + 3 + at + 8]
       ELSE [st EXCEPT !.pos = EndPos(f, st)]

-----------------------------------------------------------------------------
(* What the reader does next                                                *)
Kind(f, o, st) ==
    CASE st.phase = "header" -> "Header"
      [] st.phase = "definitions" ->
           IF ~Complete(f, st) THEN "EndOfDefinitions"
           ELSE LET t == Type(f, st) IN
                CASE t = MI -> "DefInfo"       [] t = MM -> "DefMulti"
                  [] t = MF -> "DefFormat"     [] t = MP -> "DefParam"
                  [] t = MQ -> "DefDefault"    [] t = MB -> "DefFlags"
                  [] t \in EndsDefinitions -> "EndOfDefinitions"
                  [] OTHER -> "DefUnknown"
      [] st.phase = "data" ->
           IF TailGarbage(f, st) THEN "TailGarbage"
           ELSE IF SegmentEnds(f, st) THEN "EndOfSegment"
           ELSE LET t == Type(f, st) IN
                CASE t = MI -> "Info"          [] t = MM -> "Multi"
                  [] t = MP -> "Param"         [] t = MQ -> "Default"
                  [] t = MA -> "Subscribe"     [] t = ML -> "Text"
                  [] t = MC -> "TaggedText"    [] t = MD -> "Sample"
                  [] t = MO -> "Dropout"       [] t = MS -> "Sync"
                  [] OTHER -> IF Implausible(f, st) THEN "Garbage" ELSE "Unknown"
      [] OTHER -> "Done"

Step(f, o, st) ==
    LET k == Kind(f, o, st) IN
    CASE k = "Header" -> HeaderStep(f, st)
      [] k = "EndOfDefinitions" -> ToData(f, o, st)
      [] k = "DefInfo" -> DefinitionStep(f, o, st, Info)
      [] k = "DefMulti" -> DefinitionStep(f, o, st, Multi)
      [] k = "DefFormat" -> DefinitionStep(f, o, st, Format)
      [] k = "DefParam" -> DefinitionStep(f, o, st, InitialParam)
      [] k = "DefDefault" -> DefinitionStep(f, o, st, DefaultParam)
      [] k = "DefFlags" -> DefinitionStep(f, o, st, FlagBits)
      [] k = "DefUnknown" -> SkipUnknownDefinition(f, st)
      [] k = "EndOfSegment" -> NextSegment(st)
      [] k = "Info" -> DataStep(f, o, st, Info)
      [] k = "Multi" -> DataStep(f, o, st, Multi)
      [] k = "Param" -> DataStep(f, o, st, ChangedParam)
      [] k = "Default" -> DataStep(f, o, st, DefaultParam)
      [] k = "Subscribe" -> DataStep(f, o, st, Subscribe)
      [] k = "Text" -> DataStep(f, o, st, Text)
      [] k = "TaggedText" -> DataStep(f, o, st, TaggedText)
      [] k = "Sample" -> DataStep(f, o, st, Sample)
      [] k = "Dropout" -> DataStep(f, o, st, Dropout)
      [] k = "Sync" -> DataStep(f, o, st, Sync)
      [] k = "Garbage" -> Resync(f, st)
      [] k = "TailGarbage" -> ResyncTail(f, st)
      [] k = "Unknown" -> SkipUnknown(f, st)
      [] OTHER -> st

RECURSIVE RunFrom(_, _, _)
RunFrom(f, o, st) == IF st.phase = "done" THEN st ELSE RunFrom(f, o, Step(f, o, st))
(* the result of a complete load *)
Run(f, o) == RunFrom(f, o, Start)

DefaultOptions == [all |-> TRUE, names |-> {}, strict |-> FALSE, header |-> FALSE]

-----------------------------------------------------------------------------
(* The datasets of a load: subscriptions with samples                       *)
Datasets(log) ==
    {s \in RangeOf(log.closed) \cup {log.subs[i] : i \in DOMAIN log.subs} : Len(s.rows) > 0}
Column(ds, k) == [r \in DOMAIN ds.rows |->
                    Slice(ds.rows[r], ds.offs[k], ds.offs[k] + SizeOf[ds.fields[k][2]])]
DatasetBefore(a, b) == LexLt(a.name, b.name) \/ (a.name = b.name /\ a.multi < b.multi)

TagsOf(log) == {log.tagged[i][1] : i \in DOMAIN log.tagged}
WithTag(log, t) == LET own == SelectSeq(log.tagged, LAMBDA x : x[1] = t)
                   IN [i \in DOMAIN own |-> <<own[i][2], own[i][3], own[i][4]>>]
=============================================================================
