------------------------------ MODULE MC_Tools ------------------------------
(***************************************************************************)
(* Exhaustive model of the tools: a logger writes a small log from the     *)
(* alphabet of a profile (one per tool); after every message the outputs   *)
(* that ULogTools prescribes have to obey the laws that a user relies on,  *)
(* each stated without reference to how the operator computes it.          *)
(* Every log is exported with arguments and replayed into the real tool.   *)
(***************************************************************************)
EXTENDS Logger, ULogTools, Json, IOUtils

Profile == IOEnv.PROFILE
MaxData == atoi(IOEnv.MAXDATA)
ExportMod == atoi(IOEnv.EXPORTMOD)

Enc32(n) == SubSeq(Enc64(n), 1, 4)
Int32Of(n) == IF n >= 0 THEN Enc32(n)
              ELSE LET m == 0 - (n + 1)  e == Enc32(m) IN [i \in 1..4 |-> 255 - e[i]]
TheStart == 900000
StartBytes == Enc64(TheStart)

FieldOf(ty, n, name) == <<S(ty), n, S(name)>>
Ts == FieldOf("uint64_t", 0, "timestamp")
F(name, fields) == [m |-> "format", name |-> name, fields |-> <<Ts>> \o fields]
Sub(id, multi, name) == [m |-> "subscribe", id |-> id, multi |-> multi, name |-> name]
Smp(id, t, rest) == [m |-> "sample", id |-> id, ts |-> t, row |-> Enc64(t) \o rest, pad |-> <<>>]
Info_(k, v) == [m |-> "info", key |-> k, val |-> v]
Param_(k, v) == [m |-> "param", key |-> k, val |-> v]
Default_(b, k, v) == [m |-> "default", bits |-> b, key |-> k, val |-> v]
Text_(lv, t, b) == [m |-> "text", level |-> lv, ts |-> t, text |-> b]
I32(n) == Num("int32_t", Int32Of(n))
Flt(b) == Num("float", b)
MM_(c, k, v) == [m |-> "multi", cont |-> c, key |-> k, val |-> v]

(* ---- float32 -------------------------------------------------------------- *)
F0 == <<0, 0, 0, 0>>
F1 == <<0, 0, 128, 63>>
FHalf == <<0, 0, 0, 63>>
FRoot == <<243, 4, 53, 63>>
Neg(f) == IF f = F0 THEN F0 ELSE [f EXCEPT ![4] = @ + 128]
(* the 48 unit quaternions of the rotations of a cube *)
Signed(f) == {f, Neg(f)}
Quats == {[i \in 1..4 |-> IF i = k THEN f ELSE F0] : k \in 1..4, f \in Signed(F1)}
         \cup [1..4 -> Signed(FHalf)]
         \cup UNION {{[i \in 1..4 |-> CASE i = j -> f [] i = k -> g [] OTHER -> F0]
                      : f \in Signed(FRoot), g \in Signed(FRoot)}
                     : <<j, k>> \in {x \in (1..4) \X (1..4) : x[1] < x[2]}}

(* ---- profiles -------------------------------------------------------------- *)
Defs ==
    CASE Profile \in {"C23", "C24"} ->
           <<F("t", <<FieldOf("uint8_t", 0, "x"), FieldOf("char", 2, "s"), FieldOf("uint8_t", 3, "_padding0")>>)>>
      [] Profile = "C25" -> <<F("t", <<FieldOf("uint8_t", 0, "x")>>)>>
      [] Profile = "C26" ->
           <<F("gps_dump", <<FieldOf("uint8_t", 0, "instance"), FieldOf("uint8_t", 0, "len"), FieldOf("uint8_t", 2, "data")>>)>>
      [] Profile = "C27" ->
           <<F("t", <<FieldOf("uint8_t", 0, "x")>>), F("tt", <<FieldOf("float", 2, "v"), FieldOf("uint8_t", 1, "_padding0")>>)>>
      [] Profile = "C28" ->
           <<F("vehicle_gps_position", <<FieldOf("int32_t", 0, "lat"), FieldOf("int32_t", 0, "lon"), FieldOf("int32_t", 0, "alt"),
                                         FieldOf("uint8_t", 0, "fix_type")>>),
             F("vehicle_status", <<FieldOf("uint8_t", 0, "nav_state")>>)>>
      [] Profile = "C29" -> <<F("ta", <<FieldOf("uint8_t", 0, "x"), FieldOf("uint8_t", 2, "y")>>),
                              F("tb", <<FieldOf("int16_t", 0, "z")>>),
                              F("tc", <<FieldOf("in", 0, "n")>>), [F("in", <<>>) EXCEPT !.fields = <<FieldOf("uint8_t", 0, "v")>>]>>
      [] Profile = "C30" -> <<Info_("sys_name", Txt(S("PX4"))),
                              F("event", <<FieldOf("uint32_t", 0, "id"), FieldOf("uint16_t", 0, "event_sequence"),
                                           FieldOf("uint8_t", 2, "arguments"), FieldOf("uint8_t", 0, "log_levels")>>)>>
      [] Profile = "C31" -> <<F("t", <<FieldOf("int8_t", 0, "x")>>)>>
      [] Profile = "C32" -> <<F("t", <<FieldOf("uint8_t", 0, "x")>>)>>
      [] Profile = "C33" -> <<F("vehicle_attitude", <<FieldOf("float", 4, "q")>>),
                              F("vehicle_attitude_setpoint", <<FieldOf("float", 4, "q_d")>>)>>
Subs ==
    CASE Profile \in {"C23", "C24"} -> <<Sub(1, 0, "t"), Sub(2, 1, "t")>>
      [] Profile = "C26" -> <<Sub(1, 0, "gps_dump")>>
      [] Profile = "C27" -> <<Sub(1, 0, "t"), Sub(2, 0, "tt"), Sub(3, 1, "tt")>>
      [] Profile = "C28" -> <<Sub(1, 0, "vehicle_gps_position"), Sub(2, 0, "vehicle_status"),
                              Smp(1, TheStart, Repeat(0, 13)), Smp(2, TheStart, <<0>>)>>
      [] Profile = "C29" -> <<Sub(1, 0, "ta"), Sub(2, 1, "ta"), Sub(3, 3, "ta"), Sub(4, 1, "tb"), Sub(5, 0, "tc")>>
      [] Profile = "C30" -> <<Sub(1, 0, "event")>>
      [] Profile = "C33" -> <<Sub(1, 0, "vehicle_attitude"), Sub(2, 1, "vehicle_attitude"), Sub(3, 0, "vehicle_attitude_setpoint")>>
      [] OTHER -> <<Sub(1, 0, "t"), Smp(1, TheStart, <<0>>)>>
(* what can be written at time t as message number k *)
Writable(t, k) ==
    CASE Profile \in {"C23", "C24"} ->
           {Smp(1, x, <<k, 97 + k, 0>> \o <<>>) : x \in {900000, 1000000, 1000001, 2000000, 3000000}}
           \cup {Smp(2, 1500000, <<k, 0, 98>>)}
      [] Profile = "C25" ->
           (IF k <= 2 THEN {Param_("P", I32(5)), Param_("P", I32(-1)), Param_("PA", Flt(F1)), Param_("O", I32(7)),
                            Default_(1, "P", I32(3)), Default_(3, "Z", Flt(FHalf)), Default_(2, "PA", Flt(F0))}
            ELSE {Param_("P", I32(k)), Param_("PA", Flt(FHalf)), Param_("NEW", I32(1)),
                  Smp(1, t + 10, <<k>>), Smp(1, t - 20, <<k>>)})
      [] Profile = "C26" ->
           {Smp(1, t + 1, <<i, l, 10 * k, (10 * k) + 1>>) : i \in {0, 1}, l \in {0, 1, 2, 128, 129, 130}}
      [] Profile = "C27" ->
           {Smp(1, t + 500000, <<k>>), Smp(2, t + 70000000, Repeat(0, 8)), Smp(3, t + 1, Repeat(0, 8)), Smp(1, t - 200000, <<k>>)}
           \cup {[m |-> "dropout", ms |-> d] : d \in {0, 7, 65535}}
           \cup {Info_("i", I32(-5)), Info_("perf_x", Txt(S("v"))), Info_("ver_sw_release", Num("uint32_t", <<128, 3, 2, 1>>)),
                 Info_("ver_sw_release", Num("uint32_t", <<255, 3, 2, 1>>)),
                 MM_(0, "m", Txt(S("ab"))), MM_(1, "m", Txt(S("cd")))}
      [] Profile = "C28" ->
           {Smp(1, t + d, Int32Of((0 - k) * 1000) \o Int32Of(k * 7) \o Int32Of(k) \o <<f>>) : d \in {100000, 100001, 250000, 1}, f \in {2, 3}}
           \cup {Smp(2, t + d, <<mo>>) : d \in {1, 60000}, mo \in {0, 3}}
      [] Profile = "C29" ->
           {Smp(1, t + 3, <<k, 1, 2>>), Smp(2, t, <<k, 3, 4>>), Smp(3, t + 3, <<k, 5, 6>>), Smp(4, t + 1, <<k, 255>>), Smp(5, t + 1, <<k>>)}
      [] Profile = "C30" ->
           {Text_(lv, t + d, x) : lv \in {51, 57}, d \in {0, 1000000}, x \in {S("a"), <<98, 9>>}}
           \cup {Smp(1, (t + d) - b, Enc32(i) \o <<k, 0>> \o <<k, 160 + k>> \o <<l>>)
                 : d \in {0, 1000000}, b \in {0, 500000}, i \in {1, 2, 3}, l \in {79}}
           \cup {Smp(1, t, Enc32(1) \o <<k, 0, 0, 0, l>>) : l \in {0, 128}}
      [] Profile = "C31" ->
           {Smp(1, x, <<v>>) : x \in {0, t, t + 5}, v \in {0, 1, 255}} \cup {Smp(1, t - 1, <<1>>)}
      [] Profile = "C32" ->
           {Param_("MAV_TYPE", I32(v)) : v \in {-1, 0, 1, 2, 3, 13, 14, 19, 20, 22, 26, 27, 28, 256}}
           \cup {Param_("SYS_MC_EST_GROUP", I32(v)) : v \in {-10, -1, 0, 1, 2, 3, 4, 100}}
           \cup {Param_(n, I32(v)) : n \in {"RC_MAP_ROLL", "RC_MAP_YAW", "RC_MAP_aB", "RC_MAP_", "XRC_MAP_A"}, v \in {0, 1, 2}}
           \cup {Info_("ver_sw_release", Num("uint32_t", <<b, 3, 2, 255>>)) : b \in {0, 1, 63, 64, 127, 128, 191, 192, 254, 255}}
           \cup {Info_("ver_sw_release", Num("int32_t", <<64, 0, 0, 128>>))}
      [] Profile = "C33" ->
           {Smp(i, t + 1, q[1] \o q[2] \o q[3] \o q[4]) : i \in {1, 2, 3}, q \in Quats}
(* parameters and information at the beginning belong to the definitions *)
InDefinitions(k) == (Profile = "C25" /\ k <= 2) \/ Profile = "C32"

-----------------------------------------------------------------------------
VARIABLES defs, body, t, n
vars == <<defs, body, t, n>>
BytesAll(ms) == FlattenSeq([i \in DOMAIN ms |-> BytesOf(ms[i])])
Init == defs = BytesAll(Defs) /\ body = BytesAll(Subs) /\ t = TheStart /\ n = 0
Write == \E m \in Writable(t, n + 1) :
    /\ n < MaxData
    /\ IF InDefinitions(n + 1) THEN defs' = defs \o BytesOf(m) /\ UNCHANGED body
       ELSE body' = body \o BytesOf(m) /\ UNCHANGED defs
    /\ t' = IF m.m \in {"sample", "text"} /\ m.ts > t THEN m.ts ELSE t
    /\ n' = n + 1
Spec == Init /\ [][Write]_vars
File == Magic \o <<1>> \o StartBytes \o defs \o body
LogNow == Run(File, DefaultOptions).log

-----------------------------------------------------------------------------
(* ---- C23, C24: time limits -------------------------------------------------- *)
Limits == 0..4
RowsOfWindow(ds, s, e) == RangeOf(Window(StampsOf(ds), s, e))
InTime(ds, r, s, e) == LET x == StampsOf(ds)[r] IN
    (s = 0 \/ Le64(Micros(s), x)) /\ (e = 0 \/ Lt64(x, Micros(e)))
Ordered(ts) == \A i \in 1..(Len(ts) - 1) : Le64(ts[i], ts[i + 1])
WindowLaws(log) == \A ds \in Datasets(log), s \in Limits, e \in Limits :
    LET w == Window(StampsOf(ds), s, e) IN
    /\ \A i \in 1..(Len(w) - 1) : w[i + 1] = w[i] + 1               \* one run of rows
    /\ s = 0 /\ e = 0 => Len(w) = Len(ds.rows)
    /\ w # <<>> /\ s # 0 => Le64(Micros(s), StampsOf(ds)[w[1]])       \* begins inside
    /\ \A r \in 1..Len(ds.rows) :                                     \* nothing is skipped before it
          (s # 0 /\ w # <<>> /\ r < w[1]) => Lt64(StampsOf(ds)[r], Micros(s))
    /\ Ordered(StampsOf(ds)) => RangeOf(w) = {r \in DOMAIN ds.rows : InTime(ds, r, s, e)}
    \* two windows side by side are the whole
    /\ (s # 0 => Len(Window(StampsOf(ds), 0, s)) + Len(Window(StampsOf(ds), s, 0)) = Len(ds.rows))
CsvLaws(log) == \A ds \in Datasets(log) :
    LET c == CsvColumns(ds) IN
    /\ [k \in DOMAIN c |-> c[k].name] = <<TimestampName, S("x"), S("s")>>
    /\ \A r \in DOMAIN ds.rows : \A i \in DOMAIN TextAt(ds, S("s"), r) : TextAt(ds, S("s"), r)[i] # 0

(* ---- C25 --------------------------------------------------------------------- *)
ParamArgs == [format : {"csv", "octave", "qgc"}, initial : {0, 1}, timestamps : {0, 1}, group : {0, 1, 2}]
KeyOf(l) == l[1].b
ParamLaws(log) ==
    LET csv(i, ts) == ParamLines(log, [format |-> "csv", initial |-> i, timestamps |-> ts, group |-> 2])
        l == csv(0, 0)
        names == [i \in DOMAIN l |-> KeyOf(l[i])]
        known == SelectSeq(log.changed, LAMBDA c : c[2] \in DOMAIN log.initial)
    IN /\ RangeOf(names) = DOMAIN log.initial /\ Len(names) = Cardinality(DOMAIN log.initial)
       /\ \A i \in 1..(Len(names) - 1) : LexLt(names[i], names[i + 1])
       /\ Sum([i \in DOMAIN l |-> Len(l[i]) - 2]) = Len(known)          \* every change once
       /\ \A i \in DOMAIN csv(1, 0) : Len(csv(1, 0)[i]) = 2
       /\ Len(csv(0, 1)) = 2 * Len(l) /\ \A i \in DOMAIN l : csv(0, 1)[2 * i - 1] = l[i] /\ Len(csv(0, 1)[2 * i]) = Len(l[i])
       /\ Len(ParamLines(log, [format |-> "qgc", initial |-> 0, timestamps |-> 0, group |-> 2])) = Len(l)
       /\ \A g \in {0, 1} : ~NoDefaults(log, [group |-> g]) =>
             RangeOf([i \in 1..Len(ParamLines(log, [format |-> "csv", initial |-> 0, timestamps |-> 0, group |-> g])) |->
                       KeyOf(ParamLines(log, [format |-> "csv", initial |-> 0, timestamps |-> 0, group |-> g])[i])])
             = DOMAIN DefaultsOf(log, g)

(* ---- C26 ------------------------------------------------------------------------ *)
GpsDs(log) == Only(InstanceOf(log, S("gps_dump"), 0))
GpsLaws(log) == InstanceOf(log, S("gps_dump"), 0) # {} =>
    LET ds == GpsDs(log) IN
    /\ Sum([r \in DOMAIN ds.rows |-> ColumnOf(ds, S("len"))[r][1] % 128])
       = Len(GpsStream(ds, 0, TRUE)) + Len(GpsStream(ds, 0, FALSE)) + Len(GpsStream(ds, 1, TRUE)) + Len(GpsStream(ds, 1, FALSE))
    /\ GpsStream(ds, 2, TRUE) = <<>> /\ GpsStream(ds, 2, FALSE) = <<>>
    \* the bytes say by which message they were written: each stream is in order
    /\ \A i \in {0, 1}, d \in BOOLEAN : LET s == GpsStream(ds, i, d) IN
          /\ \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
          \* what was extracted stays, more is only appended
          /\ \A k \in DOMAIN ds.rows : IsPrefixOf(GpsStream([ds EXCEPT !.rows = SubSeq(ds.rows, 1, k)], i, d), s)

(* ---- C28 -------------------------------------------------------------------------- *)
Intervals == {0, 100000, 250000}
KmlLaws(log) ==
    LET ds == Only(InstanceOf(log, S("vehicle_gps_position"), 0))
        ps == Positions(ds)
        ts == StampsOf(ds)
        modes == NavModes(log)
    IN \A iv \in Intervals :
       LET lines == Track(ps, modes, Enc64(iv))
           RECURSIVE kept(_)
           \* the points without the joints
           kept(k) == IF k = 0 THEN <<>> ELSE kept(k - 1) \o (IF k = 1 THEN lines[k].pts ELSE Tail(lines[k].pts))
           ks == kept(Len(lines))
           fixed == {ps[i][2] : i \in DOMAIN ps}
           before(r) == {q \in RangeOf(ks) : q < r}
       IN /\ \A k \in 2..Len(lines) : lines[k].pts # <<>> /\ lines[k].pts[1] = lines[k - 1].pts[Len(lines[k - 1].pts)]
          /\ \A k \in 1..Len(lines) : lines[k].mode = (IF modes = <<>> THEN 0 ELSE modes[k][2])
          /\ RangeOf(ks) \subseteq fixed
          /\ \A i \in 1..(Len(ks) - 1) : Lt64(Enc64(iv), Sub64(ts[ks[i + 1]], ts[ks[i]]))
          \* whatever is left out is too close to the point before it
          /\ \A r \in fixed \ RangeOf(ks) : before(r) # {} /\ ~Lt64(Enc64(iv), Sub64(ts[r], ts[Max(before(r))]))
          \* a point belongs to the mode that was on when it was taken
          /\ \A k \in 1..Len(lines) : \A i \in 2..Len(lines[k].pts) :
                LET p == lines[k].pts[i]
                    past == {j \in DOMAIN modes : Le64(modes[j][1], ts[p])}
                IN \/ lines[k].mode = modes[Max(past)][2]
                   \/ i = Len(lines[k].pts) /\ k < Len(lines)           \* the joint

(* ---- C29 ----------------------------------------------------------------------------- *)
RosArgs == [all |-> 1, names |-> <<>>,
            types |-> <<[name |-> S("Ta"), fields |-> <<<<S("timestamp"), S("uint64")>>, <<S("x"), S("uint8")>>, <<S("y"), S("uint8[2]")>>>>],
                        [name |-> S("Tb"), fields |-> <<<<S("timestamp"), S("uint64")>>, <<S("z"), S("int16")>>>>],
                        [name |-> S("Tc"), fields |-> <<<<S("timestamp"), S("uint64")>>, <<S("n"), S("uint8")>>>>]>>]
RosLaws(log) ==
    LET conv == {d \in Datasets(log) : Convertible(d, RosArgs)} IN
    /\ {d.name : d \in conv} = {d.name : d \in Datasets(log)} \ {S("tc")}
    /\ Cardinality({RosTopic(log, d) : d \in conv}) = Cardinality(conv)
    /\ \A d \in conv : RosTopic(log, d) = S("/px4/") \o d.name =>
          {x.multi : x \in {x \in Datasets(log) : x.name = d.name}} = {0}

(* ---- C30 ------------------------------------------------------------------------------ *)
Ev(i, g, m) == [id |-> Enc32(i), group |-> S(g), message |-> S(m)]
EventArgs == [logdefs |-> <<>>, defaultdefs |-> <<Ev(1, "default", "one"), Ev(2, "calibration", "two")>>]
RECURSIVE Merge(_, _)
Merge(e, x) == IF e = <<>> THEN x ELSE IF x = <<>> THEN e
               ELSE IF Le64(e[1].ts, x[1].ts) THEN <<e[1]>> \o Merge(Tail(e), x) ELSE <<x[1]>> \o Merge(e, Tail(x))
LinesOf(s) == [i \in DOMAIN s |-> s[i].line]
Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
MessageLaws(log) ==
    LET ev == EventLines(log, EventArgs)
        own == TextLines(log, FALSE)
        e == ByTime(ev)  x == ByTime(own)
        m == Merge(e, x)
        shown == LinesOf(m)
        sent == IF InstanceOf(log, S("event"), 0) = {} THEN <<>>
                ELSE LET ds == Only(InstanceOf(log, S("event"), 0)) IN
                     SelectSeq([r \in DOMAIN ds.rows |-> <<ColumnOf(ds, S("id"))[r][1], ColumnOf(ds, S("log_levels"))[r][1]>>],
                               LAMBDA q : q[1] # 2 /\ q[2] < 128)
    IN /\ Ordered([i \in DOMAIN m |-> m[i].ts])
       /\ Len(ev) = Len(sent)                       \* every enabled event of the group, and every unknown one
       /\ Len(own) = Cardinality({i \in DOMAIN log.msgs : log.msgs[i][3] = S("a")})
       /\ Len(TextLines(log, TRUE)) = Len(log.msgs)
       /\ Interleaving(shown, e, x)
       \* a loss, a repetition and an exchange of lines of different times are noticed
       /\ shown # <<>> => ~Interleaving(Tail(shown), e, x) /\ ~Interleaving(Append(shown, shown[1]), e, x)
       /\ \A i \in 1..(Len(m) - 1) : Lt64(m[i].ts, m[i + 1].ts) /\ shown[i] # shown[i + 1] => ~Interleaving(Swap(shown, i), e, x)

(* ---- C31 ------------------------------------------------------------------------------ *)
ChangeLaws(log) == \A ds \in Datasets(log) :
    LET m == FieldIndex(ds, S("x"))
        ch == ValueChanges(ds, m)
        col == Column(ds, m)
        ts == StampsOf(ds)
        valid == {r \in DOMAIN ds.rows : ts[r] # Zero64}
        \* the value that the list says is there at row r
        told(r) == col[ch[Max({i \in DOMAIN ch : ch[i] <= r})]]
    IN /\ \A i \in 1..(Len(ch) - 1) : ch[i] < ch[i + 1] /\ col[ch[i]] # col[ch[i + 1]]
       /\ RangeOf(ch) \subseteq valid
       /\ (ch = <<>> <=> valid = {})
       /\ \A r \in valid : ch[1] <= r /\ told(r) = col[r]           \* the list tells the whole signal

(* ---- C32 ------------------------------------------------------------------------------- *)
LookupLaws(log) ==
    LET k == S("ver_sw_release")
        v == VersionTuple(log, k)  text == VersionText(log, k)
    IN /\ (v = <<>> <=> k \notin DOMAIN log.infos)
       /\ (text # <<>> <=> v # <<>> /\ v[4] >= 64)
       /\ (HasInt(log, S("MAV_TYPE")) /\ IntOf(log, S("MAV_TYPE")) \in 0..27 <=> MavType(log) # S("unknown type"))
       /\ \A c \in 0..3, d \in 0..3 : c # d => RcNames(log, c) \cap RcNames(log, d) = {}
       /\ UNION {RcNames(log, c) : c \in -1..1}
          = {Capitalized(From(x, 7)) : x \in {x \in DOMAIN log.initial : StartsWith(x, S("RC_MAP_"))}}

(* ---- C33 ------------------------------------------------------------------------------- *)
Quarter == 6434
Angles == {<<r * Quarter, p * Quarter, y * Quarter>> : r \in -1..2, p \in -1..1, y \in -1..2}
          \cup {<<r * Quarter, p * 3217, (y * 3217)>> : r \in -1..2, p \in {-1, 1}, y \in -3..4}
          \cup {<<r * 3217, p * Quarter, y * 3217>> : r \in -3..4, p \in -1..1, y \in -3..4}
FixedQuat(q) == [i \in 1..4 |-> FixedOf(q[i])]
Opposite(f) == IF f = F0 THEN F0 ELSE [f EXCEPT ![4] = (@ + 128) % 256]
SameRotation(p, q) == p = q \/ p = [i \in 1..4 |-> Opposite(q[i])]
AttitudeLaws ==
    \A q \in Quats :
       LET as == {a \in Angles : AttitudeIs(FixedQuat(q), a)} IN
       /\ as # {}
       \* the same angles for the opposite quaternion, and for no other rotation
       /\ \A p \in Quats : (\E a \in as : AttitudeIs(FixedQuat(p), a)) <=> SameRotation(p, q)

-----------------------------------------------------------------------------
Laws == LET log == LogNow IN
    CASE Profile = "C23" -> WindowLaws(log) /\ CsvLaws(log)
      [] Profile = "C24" -> WindowLaws(log)
      [] Profile = "C25" -> ParamLaws(log)
      [] Profile = "C26" -> GpsLaws(log)
      [] Profile = "C28" -> KmlLaws(log)
      [] Profile = "C29" -> RosLaws(log)
      [] Profile = "C30" -> MessageLaws(log)
      [] Profile = "C31" -> ChangeLaws(log)
      [] Profile = "C32" -> LookupLaws(log)
      [] Profile = "C33" -> n = 0 => AttitudeLaws
      [] OTHER -> TRUE
Hash(s) == FoldLeft(LAMBDA a, x : (a * 31 + x + 7) % 65521, 1, s)
Export == (ExportMod <= 1 \/ Hash(defs \o body) % ExportMod = 0) => PrintT(ToJson([file |-> File, n |-> n]))
=============================================================================
