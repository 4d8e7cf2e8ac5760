----------------------------- MODULE ULogWriter -----------------------------
(***************************************************************************)
(* Writing a loaded log, as pyulog's write_ulog does, and the canonical    *)
(* form of what is written.                                                *)
(*                                                                         *)
(* Write(log) is the written file up to the order of the definitions (the  *)
(* maps of the specification have no order; here it is the key order).     *)
(* CanonNext is the automaton that accepts exactly the canonical files.    *)
(***************************************************************************)
EXTENDS Logger

KeySeq(fcn) == SetToSortSeq(DOMAIN fcn, LexLt)
KVRaw(key, v) == LET k == v.t \o <<Space>> \o key IN <<Len(k)>> \o k \o v.b

WriteFlags(log) == Frame(MB, log.compat \o [log.incompat EXCEPT ![1] = (@ \div 2) * 2] \o Repeat(0, 24))
WriteFormats(log) ==
    LET ks == KeySeq(log.formats) IN
    FlattenSeq([i \in DOMAIN ks |->
        Frame(MF, ks[i] \o <<Colon>> \o FlattenSeq([j \in DOMAIN log.formats[ks[i]] |-> FieldBytes(log.formats[ks[i]][j])]))])
WriteInfos(log) ==
    LET ks == KeySeq(log.infos) IN
    FlattenSeq([i \in DOMAIN ks |-> Frame(MI, KVRaw(ks[i], log.infos[ks[i]]))])
WriteMultis(log) ==
    LET ks == KeySeq(log.multi)
        entry(k, e) == FlattenSeq([j \in DOMAIN e |->
                          Frame(MM, <<IF j = 1 THEN 0 ELSE 1>> \o KVRaw(k, [e[j] EXCEPT !.t = log.multi[k].t]))])
        one(k) == FlattenSeq([i \in DOMAIN log.multi[k].lists |-> entry(k, log.multi[k].lists[i])])
    IN FlattenSeq([i \in DOMAIN ks |-> one(ks[i])])
WriteInitial(log) ==
    LET ks == KeySeq(log.initial) IN
    FlattenSeq([i \in DOMAIN ks |-> Frame(MP, KVRaw(ks[i], log.initial[ks[i]]))])
WriteDefaults(log) ==
    LET of(g) == LET ks == KeySeq(log.defaults[g]) IN
                 FlattenSeq([i \in DOMAIN ks |-> Frame(MQ, <<g + 1>> \o KVRaw(ks[i], log.defaults[g][ks[i]]))])
    IN (IF 0 \in DOMAIN log.defaults THEN of(0) ELSE <<>>)
       \o (IF 1 \in DOMAIN log.defaults THEN of(1) ELSE <<>>)

(* subscriptions that have data, by id *)
Ids(log) == SetToSortSeq({i \in DOMAIN log.subs : log.subs[i].rows # <<>>}, LAMBDA a, b : a < b)
WriteSubs(log) ==
    LET ids == Ids(log) IN
    FlattenSeq([i \in DOMAIN ids |->
        Frame(MA, <<log.subs[ids[i]].multi>> \o Enc16(ids[i]) \o log.subs[ids[i]].name)])

Item(ts, b) == [ts |-> ts, b |-> b]
DataItems(log) ==
    LET ids == Ids(log)
        of(id) == LET s == log.subs[id] IN
                  [r \in DOMAIN s.rows |-> Item(Slice(s.rows[r], s.toff, s.toff + 8),
                                                Frame(MD, Enc16(id) \o s.rows[r]))]
    IN FlattenSeq([i \in DOMAIN ids |-> of(ids[i])])
TextItems(log) == [i \in DOMAIN log.msgs |->
    Item(log.msgs[i][2], Frame(ML, <<log.msgs[i][1]>> \o log.msgs[i][2] \o log.msgs[i][3]))]
TaggedItems(log) ==
    LET tags == SetToSortSeq(TagsOf(log), LAMBDA a, b : a < b)
        of(t) == LET ms == WithTag(log, t) IN
                 [i \in DOMAIN ms |-> Item(ms[i][2], Frame(MC, <<ms[i][1]>> \o Enc16(t) \o ms[i][2] \o ms[i][3]))]
    IN FlattenSeq([i \in DOMAIN tags |-> of(tags[i])])
DropoutItems(log) == [i \in DOMAIN log.dropouts |->
    Item(log.dropouts[i][1], Frame(MO, Enc16(log.dropouts[i][2])))]
ChangeItems(log) == [i \in DOMAIN log.changed |->
    Item(log.changed[i][1], Frame(MP, KVRaw(log.changed[i][2], log.changed[i][3])))]

(* stable sort by time *)
SortItems(items) ==
    LET ix == SetToSortSeq(DOMAIN items,
                 LAMBDA a, b : Lt64(items[a].ts, items[b].ts) \/ (items[a].ts = items[b].ts /\ a < b))
    IN [i \in DOMAIN ix |-> items[ix[i]].b]
WriteData(log) ==
    FlattenSeq(SortItems(DataItems(log) \o TextItems(log) \o TaggedItems(log)
                         \o DropoutItems(log) \o ChangeItems(log)))

Write(log) == Magic \o <<log.version>> \o log.start \o WriteFlags(log) \o WriteFormats(log)
              \o WriteInfos(log) \o WriteMultis(log) \o WriteInitial(log) \o WriteDefaults(log)
              \o WriteSubs(log) \o WriteData(log)

-----------------------------------------------------------------------------
(* Canonical form: an automaton over the messages of a written file.        *)
(*   part   "flags" (expected first), "definitions", "subscriptions", "data" *)
(*   ids    ids with a subscription    names  subscribed (name, instance)    *)
(*   last   time of the last data-section message that carries one           *)
(*   bad    what is wrong (empty: canonical so far)                          *)
CanonStart == [part |-> "flags", ids |-> {}, names |-> {}, last |-> Zero64, bad |-> {}]
Complain(c, what) == [c EXCEPT !.bad = @ \cup {what}]
(* a format is spelled "name:type name;type[n] name;..." *)
CanonicalFormat(p) ==
    LET r == Format(DefaultOptions, EmptyLog, p)  fs == r.log.formats[CHOOSE n \in DOMAIN r.log.formats : TRUE] IN
    /\ r.err = "ok"
    /\ p = (CHOOSE n \in DOMAIN r.log.formats : TRUE) \o <<Colon>> \o FlattenSeq([i \in DOMAIN fs |-> FieldBytes(fs[i])])
(* toffs: offset of the time stamp in the samples of an id *)
MessageTime(type, p, toff) == CASE type = ML -> Slice(p, 1, 9)
                                [] type = MC -> Slice(p, 3, 11)
                                [] OTHER -> Slice(p, 2 + toff, 10 + toff)
CanonNext(c, type, p, toff) ==
    CASE c.part = "flags" ->
            IF type # MB THEN Complain([c EXCEPT !.part = "definitions"], "no flag message behind the header")
            ELSE IF Len(p) < 40 \/ p[9] % 2 = 1 \/ \E i \in 17..40 : p[i] # 0
            THEN Complain([c EXCEPT !.part = "definitions"], "appended data marker or offsets")
            ELSE [c EXCEPT !.part = "definitions"]
      [] type = MB -> Complain(c, "second flag message")
      [] type \in {MF, MI, MM, MQ} ->
            IF c.part = "definitions"
            THEN IF type = MF /\ ~CanonicalFormat(p) THEN Complain(c, "spelling of a format") ELSE c
            ELSE Complain(c, "definition behind the first subscription")
      [] type = MP -> IF c.part \in {"definitions", "data"} THEN c ELSE [c EXCEPT !.part = "data"]
      [] type = MA ->
            LET id == U16(p, 1)  key == <<From(p, 3), p[1]>> IN
            IF c.part = "data" THEN Complain(c, "subscription behind data")
            ELSE IF id \in c.ids \/ key \in c.names THEN Complain(c, "repeated subscription")
            ELSE [c EXCEPT !.part = "subscriptions", !.ids = @ \cup {id}, !.names = @ \cup {key}]
      [] type \in {MD, ML, MC} ->
            LET d == [c EXCEPT !.part = "data"] IN
            IF c.part = "definitions" THEN Complain(d, "data before the first subscription")
            ELSE IF type = MD /\ U16(p, 0) \notin c.ids THEN Complain(d, "sample without subscription")
            ELSE LET ts == MessageTime(type, p, toff) IN
                 IF Lt64(ts, c.last) THEN Complain(d, "messages not in time order")
                 ELSE [d EXCEPT !.last = ts]
      [] type = MO -> [c EXCEPT !.part = "data"]
      [] OTHER -> Complain(c, "unexpected message type")

RECURSIVE CanonRun(_, _, _, _)
(* pos: 0-based position of the next message; toffs: id -> offset *)
CanonRun(f, pos, c, toffs) ==
    IF pos = Len(f) THEN c
    ELSE IF pos + 3 > Len(f) \/ pos + 3 + U16(f, pos) > Len(f) THEN Complain(c, "incomplete message at the end")
    ELSE LET end == pos + 3 + U16(f, pos)
             p == SubSeq(f, pos + 4, end)
             ty == f[pos + 3]
             id == IF ty = MD /\ Len(p) >= 2 THEN U16(p, 0) ELSE -1
         IN CanonRun(f, end, CanonNext(c, ty, p, IF id \in DOMAIN toffs THEN toffs[id] ELSE 0), toffs)
ToffsOf(log) == [i \in DOMAIN log.subs |-> log.subs[i].toff]
Canonical(f, log) == CanonRun(f, 16, CanonStart, ToffsOf(log)).bad
=============================================================================
