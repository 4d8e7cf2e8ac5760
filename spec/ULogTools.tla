----------------------------- MODULE ULogTools -----------------------------
(***************************************************************************)
(* The tools: what each of them makes of a loaded log.  Every operator is  *)
(* a function of the log of ULogReader and of the arguments of the tool.   *)
(***************************************************************************)
EXTENDS ULogObs

(* ---- numbers --------------------------------------------------------------- *)
Million == 1000000
(* an 8 byte number below 2^31 *)
ToInt(a) == a[1] + 256 * a[2] + 65536 * a[3] + 16777216 * a[4]
Seconds(a) == ToInt(Div64(a, Million))
HMS(a) == LET s == Seconds(a) IN <<s \div 3600, (s \div 60) % 60, s % 60>>
Micros(s) == Mul64(Enc64(s), Million)
(* a 4 byte signed number *)
Int32(r) == IF r[4] >= 128 THEN ((r[1] + 256 * r[2] + 65536 * r[3]) - 16777216) + (r[4] - 255) * 16777216
            ELSE r[1] + 256 * r[2] + 65536 * r[3] + 16777216 * r[4]
(* (negative: the magnitude is m + 1, which may not be a TLC integer) *)
SignedDigits(n) ==
    IF n >= 0 THEN Digits(n)
    ELSE LET m == 0 - (n + 1)
             high == (m \div 10) + (IF (m % 10) = 9 THEN 1 ELSE 0)
         IN <<45>> \o (IF high = 0 THEN <<>> ELSE Digits(high)) \o <<48 + (((m % 10) + 1) % 10)>>

(* observed cells: <<text, 16 byte integer or <<>>, float32 or <<>>, float64 or <<>>>> *)
NumberCell(t, raw, c) ==
    CASE t = T_float -> c[3] # <<>> /\ SameF4(c[3], raw)
      [] t = T_double -> c[4] # <<>> /\ SameF8(c[4], raw)
      [] OTHER -> c[2] = Extend16(IF ColKind(t) = "i" THEN T_int8 ELSE T_uint8, raw)
ValueCell(v, c) ==
    CASE v.k = "s" -> c[1] = v.b
      [] v.k = "n" /\ v.t = T_bool -> c[1] \in (IF v.b[1] = 0 THEN {S("False"), S("0")} ELSE {S("True"), S("1")})
      [] v.k = "n" -> NumberCell(v.t, v.b, c)
      [] OTHER -> TRUE
(* observed values of the API: as ULogObs!SameValue, for an element of a column *)
ElementIs(t, raw, o) ==
    CASE t = T_float -> o[1] = "f" /\ o[4] = 1 /\ SameF4(o[2], raw)
      [] t = T_double -> o[1] = "f" /\ SameF8(o[3], raw)
      [] OTHER -> o[1] = "i" /\ o[2] = Extend16(IF ColKind(t) = "i" THEN T_int8 ELSE T_uint8, raw)

(* n / 2^k *)
RECURSIVE Halve(_, _)
Halve(n, k) == IF k <= 0 THEN n ELSE Halve(n \div 2, k - 1)

(* ---- datasets ---------------------------------------------------------------- *)
FieldIndex(ds, name) == CHOOSE m \in DOMAIN ds.fields : ds.fields[m][1] = name
HasField(ds, name) == \E m \in DOMAIN ds.fields : ds.fields[m][1] = name
ColumnOf(ds, name) == Column(ds, FieldIndex(ds, name))
TypeOf(ds, name) == ds.fields[FieldIndex(ds, name)][2]
StampsOf(ds) == ColumnOf(ds, TimestampName)
InstanceOf(log, name, multi) == {d \in Datasets(log) : d.name = name /\ d.multi = multi}
Only(S_) == CHOOSE x \in S_ : TRUE
CellAt(ds, m, r) == Slice(ds.rows[r], ds.offs[m], ds.offs[m] + SizeOf[ds.fields[m][2]])

(* ---- time windows: the first sample at or after a limit ---------------------- *)
RECURSIVE FirstFrom(_, _, _)
FirstFrom(ts, lim, i) == IF i > Len(ts) THEN i ELSE IF Le64(lim, ts[i]) THEN i ELSE FirstFrom(ts, lim, i + 1)
(* rows lo..hi-1; a limit of 0 is none *)
WindowLo(ts, s) == IF s = 0 THEN 1 ELSE FirstFrom(ts, Micros(s), 1)
WindowHi(ts, e) == IF e = 0 THEN Len(ts) + 1 ELSE FirstFrom(ts, Micros(e), 1)
Window(ts, s, e) == LET lo == WindowLo(ts, s)  hi == WindowHi(ts, e) IN
                    [i \in 1..Max2(0, hi - lo) |-> lo + i - 1]

(* ---- CSV ---------------------------------------------------------------------- *)
RECURSIVE LastIndexOf(_, _, _)
LastIndexOf(s, c, i) == IF i = 0 THEN 0 ELSE IF s[i] = c THEN i ELSE LastIndexOf(s, c, i - 1)
EndsIndexed(n) == Len(n) > 0 /\ n[Len(n)] = CloseB
BaseOf(n) == SubSeq(n, 1, LastIndexOf(n, OpenB, Len(n)) - 1)
IsTextField(f) == f[2] = T_char /\ EndsIndexed(f[1])
RECURSIVE UntilNul(_)
UntilNul(s) == IF s = <<>> \/ s[1] = 0 THEN <<>> ELSE <<s[1]>> \o UntilNul(Tail(s))
CsvColumns(ds) ==
    LET one(m) == LET f == ds.fields[m] IN
            IF StartsWith(f[1], PaddingPrefix) \/ f[1] = TimestampName THEN <<>>
            ELSE IF IsTextField(f)
            THEN IF f[1] = Indexed(BaseOf(f[1]), 0) THEN <<[text |-> TRUE, name |-> BaseOf(f[1]), m |-> 0]>> ELSE <<>>
            ELSE <<[text |-> FALSE, name |-> f[1], m |-> m]>>
    IN <<[text |-> FALSE, name |-> TimestampName, m |-> FieldIndex(ds, TimestampName)]>>
       \o FlattenSeq([m \in DOMAIN ds.fields |-> one(m)])
TextAt(ds, base, r) ==
    LET ms == SelectSeq([m \in DOMAIN ds.fields |-> m],
                        LAMBDA m : IsTextField(ds.fields[m]) /\ BaseOf(ds.fields[m][1]) = base)
    IN Clean(UntilNul([i \in DOMAIN ms |-> CellAt(ds, ms[i], r)[1]]))
CsvName(stem, ds) ==
    stem \o S("_") \o [i \in DOMAIN ds.name |-> IF ds.name[i] = 47 THEN 95 ELSE ds.name[i]]
    \o S("_") \o Digits(ds.multi) \o S(".csv")
CsvRow(ds, cols, r, row) ==
    /\ Len(row) = Len(cols)
    /\ \A k \in DOMAIN cols :
          IF cols[k].text THEN row[k][1] = TextAt(ds, cols[k].name, r)
          ELSE NumberCell(ds.fields[cols[k].m][2], CellAt(ds, cols[k].m, r), row[k])
CsvClauses(log, a, obs) ==
    LET dss == {d \in Datasets(log) : a.all = 1 \/ d.name \in RangeOf(a.names)}
        file(d) == CHOOSE i \in DOMAIN obs.files : obs.files[i].name = CsvName(a.stem, d)
    IN IF {obs.files[i].name : i \in DOMAIN obs.files} # {CsvName(a.stem, d) : d \in dss}
       THEN {"one file per dataset, named after topic and instance"}
       ELSE UNION {LET f == obs.files[file(d)]
                       cols == CsvColumns(d)
                       win == Window(StampsOf(d), a.ts, a.te)
                   IN Clause(f.header = [k \in DOMAIN cols |-> cols[k].name], "header")
                      \cup Clause(Len(f.rows) = Len(win), "number of rows")
                      \cup Clause(\A i \in 1..Min2(Len(win), Len(f.rows)) : CsvRow(d, cols, win[i], f.rows[i]), "row")
                   : d \in dss}

(* ---- one topic ------------------------------------------------------------------ *)
ExtractClauses(log, a, obs) ==
    LET ds == Only(InstanceOf(log, a.topic, 0))
        win == Window(StampsOf(ds), a.ts, a.te)
        tm == FieldIndex(ds, TimestampName)
        order == <<tm>> \o SelectSeq([m \in DOMAIN ds.fields |-> m], LAMBDA m : m # tm)
    IN Clause(Len(obs.records) = Len(win), "number of records")
       \cup Clause(\A i \in 1..Min2(Len(win), Len(obs.records)) :
                      [k \in DOMAIN obs.records[i] |-> obs.records[i][k][1]]
                      = [k \in DOMAIN order |-> ds.fields[order[k]][1]], "field order")
       \cup Clause(\A i \in 1..Min2(Len(win), Len(obs.records)) : \A k \in DOMAIN obs.records[i] :
                      k \in DOMAIN order =>
                      ElementIs(ds.fields[order[k]][2], CellAt(ds, order[k], win[i]), obs.records[i][k][2]), "values")

(* ---- parameters ------------------------------------------------------------------ *)
Tx(b) == [k |-> "t", b |-> b, v |-> <<>>]
Vl(v) == [k |-> "v", b |-> <<>>, v |-> v]
CellMatches(m, c) == IF m.k = "t" THEN c[1] = m.b ELSE ValueCell(m.v, c)
LineMatches(ms, cs) == Len(ms) = Len(cs) /\ \A i \in DOMAIN ms : CellMatches(ms[i], cs[i])
LinesMatch(ls, os) == Len(ls) = Len(os) /\ \A i \in DOMAIN ls : LineMatches(ls[i], os[i])

ChangesOf(log, key) == SelectSeq(log.changed, LAMBDA c : c[2] = key)
ParamLines(log, a) ==
    LET initialOnly == a.initial = 1 \/ a.group # 2
        values == CASE a.group = 0 -> DefaultsOf(log, 0) [] a.group = 1 -> DefaultsOf(log, 1) [] OTHER -> log.initial
        keys == SetToSortSeq(DOMAIN values, LexLt)
        changes(k) == IF initialOnly THEN <<>> ELSE ChangesOf(log, k)
        vals(k) == <<Vl(values[k])>> \o [i \in DOMAIN changes(k) |-> Vl(changes(k)[i][3])]
        csv(k) == <<<<Tx(k)>> \o vals(k)>>
        csvT(k) == csv(k) \o <<<<Tx(S("timestamp")), Tx(S("0"))>>
                               \o [i \in DOMAIN changes(k) |-> Tx(Dec64(changes(k)[i][1]))]>>
        octave(k) ==
            <<<<Tx(S("#")), Tx(S("name")), Tx(k)>>>>
            \o (IF Len(vals(k)) > 1
                THEN <<<<Tx(S("#")), Tx(S("type:")), Tx(S("matrix"))>>, <<Tx(S("#")), Tx(S("rows:")), Tx(S("1"))>>,
                       <<Tx(S("#")), Tx(S("columns:")), Tx(Digits(Len(vals(k))))>>>>
                ELSE <<<<Tx(S("#")), Tx(S("type:")), Tx(S("scalar"))>>>>)
            \o <<vals(k)>>
        qgc(k) == <<<<Tx(S("1")), Tx(S("1")), Tx(k), Vl(values[k]),
                      Tx(IF values[k].t \in {T_float, T_double} THEN S("9") ELSE S("6"))>>>>
        of(k) == CASE a.format = "octave" -> octave(k) [] a.format = "qgc" -> qgc(k)
                   [] a.timestamps = 1 -> csvT(k) [] OTHER -> csv(k)
    IN FlattenSeq([i \in DOMAIN keys |-> of(keys[i])])
NoDefaults(log, a) == a.group # 2 /\ log.compat[1] % 2 = 0

(* ---- GPS dump --------------------------------------------------------------------- *)
GpsRow(ds, r, name) == ColumnOf(ds, name)[r]
GpsStream(ds, instance, toDevice) ==
    LET mine(r) == (IF HasField(ds, S("instance")) THEN GpsRow(ds, r, S("instance"))[1] ELSE 0) = instance
        len(r) == GpsRow(ds, r, S("len"))[1]
        bytes(r) == [k \in 1..(len(r) % 128) |-> GpsRow(ds, r, Indexed(S("data"), k - 1))[1]]
    IN FlattenSeq([r \in DOMAIN ds.rows |-> IF mine(r) /\ (len(r) >= 128) = toDevice THEN bytes(r) ELSE <<>>])
(* a topic of another layout is refused *)
GpsWrongFormat(log) == \E d \in InstanceOf(log, S("gps_dump"), 0) :
                          ~HasField(d, S("len")) \/ ~HasField(d, Indexed(S("data"), 0))
GpsClauses(log, a, obs) ==
    LET dss == InstanceOf(log, S("gps_dump"), 0) IN
    IF dss = {} THEN Clause(obs.exists = 0, "nothing to extract")
    ELSE Clause(obs.exists = 2, "files")
         \cup Clause(obs.to = GpsStream(Only(dss), a.instance, TRUE), "bytes to the device")
         \cup Clause(obs.from = GpsStream(Only(dss), a.instance, FALSE), "bytes from the device")

(* ---- version and vehicle ------------------------------------------------------------ *)
Extend4(v) == LET e == Extend16(v.t, v.b) IN SubSeq(e, 1, 4)
VersionText(log, key) ==
    IF key \notin DOMAIN log.infos THEN <<>>
    ELSE LET b == Extend4(log.infos[key]) IN
         IF b[1] < 64 THEN <<>>
         ELSE S("v") \o Digits(b[4]) \o S(".") \o Digits(b[3]) \o S(".") \o Digits(b[2])
              \o (CASE b[1] < 128 -> S(" (alpha)") [] b[1] < 192 -> S(" (beta)")
                    [] b[1] < 255 -> S(" (RC)") [] OTHER -> <<>>)
VersionTuple(log, key) ==
    IF key \notin DOMAIN log.infos THEN <<>>
    ELSE LET b == Extend4(log.infos[key]) IN <<b[4], b[3], b[2], b[1]>>

MavTypes == <<"Generic", "Fixed Wing", "Quadrotor", "Coaxial helicopter", "Normal helicopter with tail rotor",
              "Ground installation", "Ground Control Station", "Airship, controlled", "Free balloon, uncontrolled",
              "Rocket", "Ground Rover", "Surface Vessel, Boat, Ship", "Submarine", "Hexarotor", "Octorotor",
              "Tricopter", "Flapping wing", "Kite", "Onboard Companion Controller", "Two-rotor VTOL (Tailsitter)",
              "Quad-rotor VTOL (Tailsitter)", "Tiltrotor VTOL", "VTOL Standard", "VTOL Tailsitter",
              "VTOL reserved 4", "VTOL reserved 5", "Onboard Gimbal", "Onboard ADSB Peripheral">>
HasInt(log, key) == key \in DOMAIN log.initial /\ log.initial[key].t = T_int32
IntOf(log, key) == Int32(log.initial[key].b)
MavType(log) == IF HasInt(log, S("MAV_TYPE")) /\ IntOf(log, S("MAV_TYPE")) \in 0..27
                THEN S(MavTypes[IntOf(log, S("MAV_TYPE")) + 1]) ELSE S("unknown type")
Estimators == <<"INAV", "LPE", "EKF2", "Q">>
Estimator(log) ==
    IF HasInt(log, S("MAV_TYPE")) /\ IntOf(log, S("MAV_TYPE")) = 1 THEN S("EKF2")
    ELSE IF ~HasInt(log, S("SYS_MC_EST_GROUP")) THEN S("EKF2")
    ELSE LET g == IntOf(log, S("SYS_MC_EST_GROUP")) IN
         IF g \in 0..3 THEN S(Estimators[g + 1]) ELSE S("unknown (") \o SignedDigits(g) \o S(")")
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Capitalized(s) == [i \in DOMAIN s |-> IF i = 1 THEN Upper(s[i]) ELSE Lower(s[i])]
RcNames(log, channel) ==
    {Capitalized(From(k, 7)) : k \in {k \in DOMAIN log.initial :
         StartsWith(k, S("RC_MAP_")) /\ HasInt(log, k) /\ IntOf(log, k) = channel + 1}}
LookupClauses(log, a, obs) ==
    Clause(\A i \in DOMAIN obs.versions : LET v == obs.versions[i] IN
              v[2] = VersionTuple(log, v[1]) /\ v[3] = VersionText(log, v[1]), "version")
    \cup Clause(obs.mav = MavType(log), "vehicle type")
    \cup Clause(obs.estimator = Estimator(log), "estimator")
    \cup Clause(\A c \in DOMAIN obs.rc :
                   /\ RangeOf(obs.rc[c][2]) = RcNames(log, obs.rc[c][1])
                   /\ obs.rc[c][3] = (IF RcNames(log, obs.rc[c][1]) = {} THEN 0 ELSE 1)
                   /\ Len(obs.rc[c][2]) = Cardinality(RcNames(log, obs.rc[c][1])), "RC channel names")

(* ---- summary -------------------------------------------------------------------------- *)
Hidden(key, a) == StartsWith(key, S("perf_")) /\ a.verbose = 0
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
InfoClauses(log, a, obs) ==
    LET d == [i \in DOMAIN log.dropouts |-> log.dropouts[i][2]]
        total == Sum(d)
        keys == {k \in DOMAIN log.infos : ~Hidden(k, a)}
        dss == Datasets(log)
        v == VersionText(log, S("ver_sw_release"))
    IN Clause(obs.corrupt = (IF log.corrupt THEN 1 ELSE 0), "corruption")
       \cup Clause(obs.start = HMS(log.start), "start time")
       \cup Clause(obs.duration = HMS(Sub64(log.last, log.start)), "duration")
       \cup Clause(IF d = <<>> THEN obs.drops = <<>>
                   ELSE /\ Len(obs.drops) = 4 /\ obs.drops[1] = Len(d)
                        /\ 2 * (obs.drops[2] - total) \in (0 - 100)..100
                        /\ obs.drops[3] = Max(RangeOf(d))
                        /\ (obs.drops[4] * Len(d)) - total \in (1 - Len(d))..(Len(d) - 1), "dropouts")
       \cup Clause(obs.version = v, "version")
       \cup Clause({obs.infos[i][1] : i \in DOMAIN obs.infos} = keys /\ Len(obs.infos) = Cardinality(keys)
                   /\ \A i \in DOMAIN obs.infos : obs.infos[i][1] \in keys =>
                        ValueCell(log.infos[obs.infos[i][1]], obs.infos[i][2]), "information messages")
       \cup Clause({obs.multi[i][1] : i \in DOMAIN obs.multi} = DOMAIN log.multi
                   /\ Len(obs.multi) = Cardinality(DOMAIN log.multi)
                   /\ (a.verbose = 0 => \A i \in DOMAIN obs.multi : obs.multi[i][1] \in DOMAIN log.multi =>
                         obs.multi[i][2] = Len(log.multi[obs.multi[i][1]].lists)), "multi-part information")
       \cup Clause(Len(obs.table) = Cardinality(dss)
                   /\ RangeOf(obs.table) = {<<ds.name, ds.multi, ds.size, Len(ds.rows), ds.size * Len(ds.rows)>> : ds \in dss},
                   "datasets")
(* one multi-part message in full: <<header>>, then its parts *)
Hex(n) == LET h == "0123456789abcdef" IN S(SubSeq(h, n + 1, n + 1))
Hex2(b) == Hex(b \div 16) \o Hex(b % 16)
RECURSIVE Join(_, _)
Join(parts, sep) == IF parts = <<>> THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1]
                    ELSE parts[1] \o sep \o Join(Tail(parts), sep)
HexText(b) == Join([i \in DOMAIN b |-> Hex2(b[i])], <<Space>>)
(* the digits of an integer *)
NumberText(v) ==
    LET a == SubSeq(Extend16(v.t, v.b), 1, 8) IN
    IF v.t \in SignedTypes /\ a[8] >= 128 THEN <<45>> \o Dec64(Sub64(Zero64, a)) ELSE Dec64(a)
MultiText(log, a) ==
    LET lists == log.multi[a.key].lists
        nl == IF a.newline = 1 THEN <<10>> ELSE <<>>
        size(l) == Sum([i \in DOMAIN l |-> Len(l[i].b)])
        one(i) == LET l == lists[i] IN
            S("# ") \o a.key \o S(" ") \o Digits(i - 1)
            \o (IF l # <<>> /\ l[1].k = "b" THEN S(" (len: ") \o Digits(size(l)) \o S("):") ELSE S(":")) \o <<10>>
            \o Join([j \in DOMAIN l |-> CASE l[j].k = "b" -> HexText(l[j].b) [] l[j].k = "n" -> NumberText(l[j])
                                           [] OTHER -> l[j].b], nl) \o <<10>>
    IN FlattenSeq([i \in DOMAIN lists |-> one(i)])
MultiClauses(log, a, obs) ==
    Clause(obs.text = (IF a.key \in DOMAIN log.multi THEN MultiText(log, a)
                       ELSE S("message ") \o a.key \o S(" not found") \o <<10>>), "multi-part message")

(* ---- value changes ---------------------------------------------------------------------- *)
RECURSIVE ChangesFrom(_, _, _, _)
(* rows is a sequence of row numbers; prev is the row before, or 0 *)
ChangesFrom(col, rows, i, prev) ==
    IF i > Len(rows) THEN <<>>
    ELSE (IF prev = 0 \/ col[rows[i]] # col[prev] THEN <<rows[i]>> ELSE <<>>)
         \o ChangesFrom(col, rows, i + 1, rows[i])
ValueChanges(ds, m) ==
    LET ts == StampsOf(ds) IN
    ChangesFrom(Column(ds, m), SelectSeq([r \in DOMAIN ds.rows |-> r], LAMBDA r : ts[r] # Zero64), 1, 0)
(* floating point: equal bits are not equal values for NaN, and vice versa for zeros *)
IsFloat(t) == t \in {T_float, T_double}
PlainFloat(t, raw) == IF t = T_float THEN ~IsNaN4(raw) /\ raw # <<0, 0, 0, 128>>
                      ELSE ~IsNaN8(raw) /\ raw # <<0, 0, 0, 0, 0, 0, 0, 128>>
ChangesClauses(log, a, obs) ==
    LET dss == Datasets(log) IN
    Clause(obs.intact = 1, "the dataset is not modified")
    \cup UNION {LET o == obs.lists[i]
                    ds == Only({d \in dss : d.name = o[1] /\ d.multi = o[2]})
                    m == FieldIndex(ds, o[3])
                    t == ds.fields[m][2]
                    rows == ValueChanges(ds, m)
                IN IF IsFloat(t) /\ \E r \in DOMAIN ds.rows : ~PlainFloat(t, CellAt(ds, m, r)) THEN {}
                   ELSE Clause(Len(o[4]) = Len(rows)
                               /\ \A k \in DOMAIN rows : o[4][k][1] = StampsOf(ds)[rows[k]]
                                    /\ ElementIs(t, CellAt(ds, m, rows[k]), o[4][k][2]), "changes")
                : i \in DOMAIN obs.lists}

(* ---- KML ----------------------------------------------------------------------------------- *)
(* positions: sequence of <<time stamp, row>>; modes: sequence of <<time stamp, mode>> *)
(* a track: the lines so far, each [mode, points], the time of the last point *)
NewLine(mode, pts) == [mode |-> mode, pts |-> pts]
RECURSIVE PassModes(_, _, _, _, _)
(* every mode change up to t closes the line at the point and opens the next one there *)
PassModes(lines, idx, modes, t, row) ==
    IF idx < Len(modes) /\ Le64(modes[idx + 1][1], t)
    THEN PassModes(Append(lines, NewLine(modes[idx + 1][2], <<row>>)), idx + 1, modes, t, row)
    ELSE <<lines, idx>>
TrackStart(modes) ==
    [lines |-> <<NewLine(IF modes = <<>> THEN 0 ELSE modes[1][2], <<>>)>>, idx |-> 1, last |-> Zero64]
TrackStep(tr, p, modes, interval) ==
    IF ~Lt64(interval, Sub64(p[1], tr.last)) THEN tr
    ELSE LET n == Len(tr.lines)
             added == [tr.lines EXCEPT ![n].pts = Append(@, p[2])]
             passed == PassModes(added, tr.idx, modes, p[1], p[2])
         IN [lines |-> passed[1], idx |-> passed[2], last |-> p[1]]
Track(positions, modes, interval) ==
    FoldLeft(LAMBDA tr, p : TrackStep(tr, p, modes, interval), TrackStart(modes), positions).lines

KmlField(ds, old, new) == IF HasField(ds, S(old)) THEN S(old) ELSE S(new)
Lon(ds) == KmlField(ds, "lon", "longitude_deg")
Lat(ds) == KmlField(ds, "lat", "latitude_deg")
Alt(ds) == KmlField(ds, "alt", "altitude_msl_m")
Fixed(ds, r) == ~HasField(ds, S("fix_type")) \/ ToInt(ColumnOf(ds, S("fix_type"))[r] \o Repeat(0, 7)) > 2
Positions(ds) ==
    LET rows == SelectSeq([r \in DOMAIN ds.rows |-> r], LAMBDA r : Fixed(ds, r))
    IN [i \in DOMAIN rows |-> <<StampsOf(ds)[rows[i]], rows[i]>>]
NavModes(log) ==
    LET dss == InstanceOf(log, S("vehicle_status"), 0) IN
    IF dss = {} \/ ~HasField(Only(dss), S("nav_state")) THEN <<>>
    ELSE LET ds == Only(dss)
             rows == ValueChanges(ds, FieldIndex(ds, S("nav_state")))
         IN [i \in DOMAIN rows |-> <<StampsOf(ds)[rows[i]], ColumnOf(ds, S("nav_state"))[rows[i]][1]>>]
(* coordinate cells: <<text, int, float32, float64, nearest 1e-7, is it near>> *)
(* a float32 that is a multiple of 1/8 below 4096, in eighths *)
Eighths(r) ==
    LET e == (r[4] % 128) * 2 + r[3] \div 128
        mant == (IF e = 0 THEN 0 ELSE 8388608) + (r[3] % 128) * 65536 + r[2] * 256 + r[1]
        mag == Halve(mant, 147 - e)
    IN IF r[4] >= 128 THEN 0 - mag ELSE mag
Coordinate(ds, name, r, c, scaled, add) ==
    LET raw == CellAt(ds, FieldIndex(ds, name), r)  t == TypeOf(ds, name) IN
    IF scaled THEN c[6] = 1 /\ c[5] = Int32(raw) + add
    ELSE IF add # 0 /\ t = T_float THEN c[6] = 1 /\ c[5] = Eighths(raw) * 125 + add
    ELSE NumberCell(t, raw, c)
Point(ds, r, c, offset) ==
    LET scaled == TypeOf(ds, Lon(ds)) = T_int32 IN
    /\ Coordinate(ds, Lon(ds), r, c[1], scaled, 0)
    /\ Coordinate(ds, Lat(ds), r, c[2], scaled, 0)
    /\ Coordinate(ds, Alt(ds), r, c[3], scaled, offset * 1000)
LineName(topic, mode) == topic \o S(":") \o SignedDigits(mode)
(* how a line looks: the colour of its mode, the width, down to the ground *)
ModeColors == <<"ff0000ff", "ff008000", "ffff0000", "ffee82ee", "ff00ffff", "ff00a5ff", "ff87b8de", "fffffff0", "ffe6d8ad",
                "ff00fc7c", "ff5c5ccd", "ffb469ff", "ffc4e4ff", "ffffff00", "ff7a96e9", "ffffbf00", "ff00ff00", "ffd670da">>
ModeColor(a, k, mode) == IF a.own = 1 THEN S("ff") \o Hex2((mode + 1) % 256) \o Hex2(k) \o S("00")
                         ELSE S(ModeColors[(Max({mode, 0}) % 18) + 1])
LineLooks(a, k, mode, o) == /\ o[3] = ModeColor(a, k, mode)
                            /\ o[4] = (IF a.width = 0 THEN 3 ELSE a.width)
                            /\ o[5] = (IF a.extrude = 1 THEN 1 ELSE 0)
                            /\ o[6] = S("absolute")
SameLooks(a, k, lines, obsLines) ==
    Len(lines) = Len(obsLines) /\ \A i \in DOMAIN lines : LineLooks(a, k, lines[i].mode, obsLines[i])
SameTrack(ds, topic, lines, obsLines, offset) ==
    /\ Len(lines) = Len(obsLines)
    /\ \A i \in DOMAIN lines :
          /\ obsLines[i][1] = LineName(topic, lines[i].mode)
          /\ Len(obsLines[i][2]) = Len(lines[i].pts)
          /\ \A k \in DOMAIN lines[i].pts : Point(ds, lines[i].pts[k], obsLines[i][2][k], offset)
KmlClauses(log, a, obs) ==
    LET modes == NavModes(log)
        \* the end of the log may count as a change to mode -1
        ended == Append(modes, <<log.last, -1>>)
        track(topic, ms) == Track(Positions(Only(InstanceOf(log, topic, 0))), ms, Enc64(a.interval))
        mine(topic) == SelectSeq(obs.lines, LAMBDA l : StartsWith(l[1], Append(topic, Colon)) /\ l[2] # <<>>)
        full(ls) == SelectSeq(ls, LAMBDA l : l.pts # <<>>)
        cams == IF a.camera = <<>> THEN {} ELSE InstanceOf(log, a.camera, 0)
    IN UNION {LET ds == Only(InstanceOf(log, topic, 0))
                  k == CHOOSE i \in DOMAIN a.topics : a.topics[i] = topic
              IN
              Clause(SameLooks(a, k, full(track(topic, modes)), mine(topic)) \/ SameLooks(a, k, full(track(topic, ended)), mine(topic)),
                     "style of the lines")
              \cup Clause(\/ SameTrack(ds, topic, full(track(topic, modes)), mine(topic), a.offset)
                     \/ SameTrack(ds, topic, full(track(topic, ended)), mine(topic), a.offset), "track")
              : topic \in RangeOf(a.topics)}
       \cup Clause(\A i \in DOMAIN obs.lines : \E t \in RangeOf(a.topics) : StartsWith(obs.lines[i][1], Append(t, Colon)),
                   "no other tracks")
       \cup (IF cams = {} THEN Clause(obs.points = <<>>, "no camera triggers")
             ELSE LET ds == Only(cams) IN
                  Clause(Len(obs.points) = Len(ds.rows)
                         /\ \A i \in DOMAIN obs.points :
                               /\ obs.points[i][1] = S("Camera Trigger ") \o Dec64(ColumnOf(ds, S("seq"))[i] \o Repeat(0, 4))
                               /\ Coordinate(ds, Lon(ds), i, obs.points[i][2][1], FALSE, 0)
                               /\ Coordinate(ds, Lat(ds), i, obs.points[i][2][2], FALSE, 0)
                               /\ Coordinate(ds, Alt(ds), i, obs.points[i][2][3], FALSE, a.offset * 1000), "camera triggers"))
NoTopic(log, a) == \E t \in RangeOf(a.topics) : InstanceOf(log, t, 0) = {}

(* ---- texts and events ------------------------------------------------------------------------ *)
Levels == <<"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG">>
TextLevel(b) == IF b \in 48..55 THEN S(Levels[b - 47]) ELSE S("UNKNOWN")
Line(ts, level, text) == [ts |-> ts, line |-> <<HMS(ts), level, text>>]
TextLines(log, all) ==
    LET ms == SelectSeq(log.msgs, LAMBDA m : all \/ m[3] = <<>> \/ m[3][Len(m[3])] # 9)
    IN [i \in DOMAIN ms |-> Line(ms[i][2], TextLevel(ms[i][1]), ms[i][3])]
IsAlnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
UsesLogDefs(log) ==
    /\ S("metadata_events") \in DOMAIN log.multi
    /\ S("metadata_events_sha256") \in DOMAIN log.infos
    /\ LET h == log.infos[S("metadata_events_sha256")].b IN Len(h) <= 64 /\ h # <<>> /\ \A i \in DOMAIN h : IsAlnum(h[i])
EventLines(log, a) ==
    LET dss == InstanceOf(log, S("event"), 0)
        ds == Only(dss)
        defs == IF UsesLogDefs(log) THEN a.logdefs ELSE a.defaultdefs
        level(r) == ColumnOf(ds, S("log_levels"))[r][1] \div 16
        id(r) == ColumnOf(ds, S("id"))[r]
        known(r) == \E i \in DOMAIN defs : defs[i].id = id(r)
        def(r) == defs[CHOOSE i \in DOMAIN defs : defs[i].id = id(r)]
        nargs == Cardinality({m \in DOMAIN ds.fields : StartsWith(ds.fields[m][1], S("arguments["))})
        args(r) == [k \in 1..nargs |-> ColumnOf(ds, Indexed(S("arguments"), k - 1))[r][1]]
        lv(r) == S(Levels[level(r) + 1])
        one(r) == IF level(r) >= 8 THEN <<>>
                  ELSE IF ~known(r)
                  THEN <<Line(StampsOf(ds)[r], lv(r), S("[Unknown event with ID ") \o Dec64(id(r) \o Repeat(0, 4)) \o S("]"))>>
                  ELSE IF def(r).group # S("default") THEN <<>>
                  ELSE <<Line(StampsOf(ds)[r], lv(r), def(r).message \o S(" ")
                              \o FlattenSeq([k \in DOMAIN args(r) |-> Hex2(args(r)[k])]))>>
    IN IF dss = {} THEN <<>> ELSE FlattenSeq([r \in DOMAIN ds.rows |-> one(r)])
RECURSIVE SortedIn(_, _)
(* insert in time order, behind what has the same time *)
InsertLine(s, x) ==
    LET k == Cardinality({i \in DOMAIN s : Le64(s[i].ts, x.ts)}) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
SortedIn(s, acc) == IF s = <<>> THEN acc ELSE SortedIn(Tail(s), InsertLine(acc, Head(s)))
ByTime(s) == SortedIn(s, <<>>)
RECURSIVE Interleaving(_, _, _)
(* o is an interleaving of the lines of e and t in time order, where the order of
   simultaneous lines of e and t is open *)
Interleaving(o, e, t) ==
    IF o = <<>> THEN e = <<>> /\ t = <<>>
    ELSE \/ /\ e # <<>> /\ o[1] = e[1].line /\ (t = <<>> \/ Le64(e[1].ts, t[1].ts))
            /\ Interleaving(Tail(o), Tail(e), t)
         \/ /\ t # <<>> /\ o[1] = t[1].line /\ (e = <<>> \/ Le64(t[1].ts, e[1].ts))
            /\ Interleaving(Tail(o), e, Tail(t))
IsPX4(log) == S("sys_name") \in DOMAIN log.infos /\ log.infos[S("sys_name")].k = "s"
              /\ log.infos[S("sys_name")].b = S("PX4")
MessageClauses(log, a, obs) ==
    LET texts == TextLines(log, TRUE)
        own == TextLines(log, FALSE)
        events == EventLines(log, a)
        lines(s) == [i \in DOMAIN s |-> s[i].line]
    IN (IF IsPX4(log)
        THEN Clause(Interleaving(obs.lines, ByTime(events), ByTime(own)), "texts and events in time order")
        ELSE Clause(obs.lines = lines(texts) \/ obs.lines = lines(ByTime(texts)), "texts"))
       \cup Clause(obs.events = lines(events), "logged events")
EventClauses(log, a, obs) ==
    LET events == EventLines(log, a) IN Clause(obs.events = [i \in DOMAIN events |-> events[i].line], "logged events")

(* ---- ROS bag ----------------------------------------------------------------------------------- *)
(* the words of the name, each letter behind something else than a letter in upper case *)
IsLetter(c) == c \in 65..90 \/ c \in 97..122
Camel(name) ==
    LET up == [i \in DOMAIN name |-> IF i = 1 \/ ~IsLetter(name[i - 1]) THEN Upper(name[i]) ELSE Lower(name[i])]
    IN SelectSeq(up, LAMBDA c : c # 95)
(* the exceptions from the naming scheme, in order; a name without anchor at the end may go on *)
IsWordByte(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95
IsWord(s) == s # <<>> /\ \A i \in DOMAIN s : IsWordByte(s[i])
EndsIn(n, s) == Len(n) >= Len(s) /\ SubSeq(n, Len(n) - Len(s) + 1, Len(n)) = s
(* n = w \o s with a word w *)
WordThen(n, s) == EndsIn(n, s) /\ IsWord(SubSeq(n, 1, Len(n) - Len(s)))
WordThenMaybe(n, s) == WordThen(n, s) \/ WordThen(n, s \o S("_groundtruth"))
(* a word, then s, then at least k word characters *)
WordHas(n, s, k) == \E i \in 2..(Len(n) - Len(s) - k + 1) :
    /\ SubSeq(n, i, i + Len(s) - 1) = s /\ IsWord(SubSeq(n, 1, i - 1))
    /\ \A j \in 0..(k - 1) : IsWordByte(n[i + Len(s) + j])
Behind(n, s) == SubSeq(n, Len(s) + 1, Len(n))
AidSource(n, names, suffix) ==
    LET s == S("estimator_aid_src_") IN
    StartsWith(n, s) /\ (Behind(n, s) \in names \/ (suffix # <<>> /\ WordThen(Behind(n, s), suffix)))
OneOf(n, firsts, s) == \E f \in firsts : n = f \o s
Rules(n) == <<
    <<StartsWith(n, S("actuator_controls_status_")) /\ Len(n) = 26 /\ n[26] \in 48..57, S("ActuatorControlsStatus")>>,
    <<StartsWith(n, S("actuator_outputs")), S("ActuatorOutputs")>>,
    <<StartsWith(n, S("config_overrides")), S("ConfigOverrides")>>,
    <<AidSource(n, {S("gnss_yaw"), S("ev_yaw"), S("fake_hgt"), S("airspeed"), S("sideslip")}, S("_hgt")), S("EstimatorAidSource1d")>>,
    <<AidSource(n, {S("drag"), S("aux_vel"), S("optical_flow"), S("aux_global_position")}, S("_pos")), S("EstimatorAidSource2d")>>,
    <<AidSource(n, {S("ev_vel"), S("gnss_vel"), S("gravity"), S("mag")}, <<>>), S("EstimatorAidSource3d")>>,
    <<StartsWith(n, S("estimator_ev_pos_bias")), S("EstimatorBias3d")>>,
    <<StartsWith(n, S("estimator_baro_bias")) \/ StartsWith(n, S("estimator_gnss_hgt_bias")), S("EstimatorBias")>>,
    <<StartsWith(n, S("estimator_innovation")), S("EstimatorInnovations")>>,
    <<n = S("px4io_status"), S("Px4ioStatus")>>,
    <<n = S("vehicle_gps_position"), S("SensorGps")>>,
    <<StartsWith(n, S("sensors_status_")) /\ Len(n) > 15 /\ IsWordByte(n[16]), S("SensorsStatus")>>,
    <<StartsWith(n, S("vehicle_angular_velocity")), S("VehicleAngularVelocity")>>,
    <<WordThenMaybe(n, S("attitude")), S("VehicleAttitude")>>,
    <<WordThen(n, S("attitude_setpoint")), S("VehicleAttitudeSetpoint")>>,
    <<WordHas(n, S("_command"), 0), S("VehicleCommand")>>,
    <<WordHas(n, S("_control_"), 1), S("VehicleControlMode")>>,
    <<\E g \in {<<>>, S("_groundtruth")} :
        OneOf(n, {S("aux_"), S("estimator_"), S("vehicle_"), S("external_ins_")}, S("global_position") \o g), S("VehicleGlobalPosition")>>,
    <<WordThenMaybe(n, S("_local_position")), S("VehicleLocalPosition")>>,
    <<WordThen(n, S("_odometry")), S("VehicleOdometry")>>,
    <<OneOf(n, {S("estimator"), S("vehicle")}, S("_optical_flow_vel")), S("VehicleOpticalFlowVel")>>,
    <<StartsWith(n, S("vehicle_thrust_setpoint")), S("VehicleThrustSetpoint")>>,
    <<StartsWith(n, S("vehicle_torque_setpoint")), S("VehicleTorqueSetpoint")>>,
    <<n \in {S("wind"), S("estimator_wind")}, S("Wind")>> >>
ByRule(n) == LET hits == SelectSeq(Rules(n), LAMBDA r : r[1]) IN IF hits = <<>> THEN <<>> ELSE hits[1][2]
RosTypes(a) == {a.types[i].name : i \in DOMAIN a.types}
RosType(name, a) ==
    IF Camel(name) \in RosTypes(a) THEN Camel(name)
    ELSE IF ByRule(name) \in RosTypes(a) THEN ByRule(name)
    ELSE <<>>
PlainName(n) == IF EndsIndexed(n) THEN BaseOf(n) ELSE n
Composed(ds) == \E m \in DOMAIN ds.fields : \E i \in DOMAIN ds.fields[m][1] : ds.fields[m][1][i] = Dot
RosFields(type, a) == RangeOf(a.types[CHOOSE i \in DOMAIN a.types : a.types[i].name = type].fields)
Convertible(ds, a) ==
    /\ RosType(ds.name, a) # <<>> /\ ~Composed(ds)
    /\ \A m \in DOMAIN ds.fields : PlainName(ds.fields[m][1]) \in {f[1] : f \in RosFields(RosType(ds.name, a), a)}
RosTopic(log, ds) ==
    S("/px4/") \o ds.name
    \o (IF {d.multi : d \in {d \in Datasets(log) : d.name = ds.name}} = {0} THEN <<>>
        ELSE S("_") \o Digits(ds.multi))
(* a message: <<topic, time in ns (16 bytes), <<<<field, element, value>>...>>>> *)
RosValue(t, raw, rosType, o) ==
    IF StartsWith(rosType, S("bool"))
    THEN o[1] = "?" \/ (o[1] = "i" /\ o[2] = Extend16(T_uint8, <<IF raw[1] = 0 THEN 0 ELSE 1>>))
    ELSE ElementIs(t, raw, o)
RosMessage(ds, r, a, m) ==
    /\ m[2] = Extend16(T_uint64, Mul64(StampsOf(ds)[r], 1000))
    /\ \A k \in DOMAIN ds.fields :
          LET f == ds.fields[k][1]
              rt == (CHOOSE x \in RosFields(RosType(ds.name, a), a) : x[1] = PlainName(f))[2]
          IN \E i \in DOMAIN m[3] :
                /\ m[3][i][1] = f
                /\ RosValue(ds.fields[k][2], CellAt(ds, k, r), rt, m[3][i][2])
(* the name of a log without .ulg *)
BagStem(f) == IF Len(f) >= 4 /\ SubSeq(f, Len(f) - 3, Len(f)) = S(".ulg") THEN SubSeq(f, 1, Len(f) - 4) ELSE f
RosClauses(log, a, obs) ==
    LET dss == {d \in Datasets(log) : a.all = 1 \/ d.name \in RangeOf(a.names)}
        conv == {d \in dss : Convertible(d, a)}
        msgs(d) == SelectSeq(obs.messages, LAMBDA m : m[1] = RosTopic(log, d))
    IN Clause(obs.closed = 1, "the bag is closed")
       \cup Clause(obs.storage = S(IF a.mcap = 1 THEN "mcap" ELSE "sqlite3"), "kind of the bag")
       \cup Clause(obs.bag = (IF a.bag # <<>> THEN a.bag ELSE S("rosbag_") \o BagStem(obs.file)), "name of the bag")
       \cup Clause({<<obs.topics[i][1], obs.topics[i][2]>> : i \in DOMAIN obs.topics}
                   = {<<RosTopic(log, d), S("px4_msgs/msg/") \o RosType(d.name, a)>> : d \in conv}
                   /\ Len(obs.topics) = Cardinality(conv), "topics")
       \cup Clause(obs.said \in {<<>>, <<Cardinality(conv), Len(obs.messages)>>}, "numbers of topics and messages reported")
       \cup Clause(Len(obs.messages) = Sum([i \in 1..Cardinality(conv) |-> Len(SetToSeq(conv)[i].rows)]), "number of messages")
       \cup UNION {Clause(Len(msgs(d)) = Len(d.rows)
                          /\ \A r \in DOMAIN d.rows : RosMessage(d, r, a, msgs(d)[r]), "messages of a topic") : d \in conv}

(* ---- attitude: fixed point numbers with 12 fractional bits ---------------------------------------- *)
One == 4096
Half(n) == IF n >= 0 THEN n \div 2 ELSE 0 - ((0 - n) \div 2)
Shift(n) == IF n >= 0 THEN n \div One ELSE 0 - ((0 - n) \div One)
Times(a, b) == Shift(a * b)
(* a float32 of at most 2 in magnitude *)
FixedOf(r) ==
    LET e == (r[4] % 128) * 2 + r[3] \div 128
        mant == (IF e = 0 THEN 0 ELSE 8388608) + (r[3] % 128) * 65536 + r[2] * 256 + r[1]
        mag == Halve(mant, 138 - e)        \* mant * 2^(e-150) * 2^12
    IN IF r[4] >= 128 THEN 0 - mag ELSE mag
Pi == 12868
(* Taylor series; |x| <= Pi *)
SinSmall(x) == LET x2 == Times(x, x)
                   x3 == Times(x2, x)   x5 == Times(x3, x2)   x7 == Times(x5, x2)
               IN x - x3 \div 6 + x5 \div 120 - x7 \div 5040
CosSmall(x) == LET x2 == Times(x, x)
                   x4 == Times(x2, x2)   x6 == Times(x4, x2)   x8 == Times(x6, x2)
               IN One - x2 \div 2 + x4 \div 24 - x6 \div 720 + x8 \div 40320
Sin(x) == IF x > Pi \div 2 THEN SinSmall(Pi - x) ELSE IF x < 0 - (Pi \div 2) THEN 0 - SinSmall(Pi + x) ELSE SinSmall(x)
Cos(x) == IF x > Pi \div 2 THEN 0 - CosSmall(Pi - x) ELSE IF x < 0 - (Pi \div 2) THEN 0 - CosSmall(Pi + x) ELSE CosSmall(x)
Near(a, b) == a - b \in (0 - 40)..40
(* the rotation matrix of the quaternion, and the one of the angles (yaw, pitch, roll) *)
AttitudeIs(q, a) ==
    LET P(i, j) == 2 * Times(q[i], q[j])
        sr == Sin(a[1])  cr == Cos(a[1])  sp == Sin(a[2])  cp == Cos(a[2])  sy == Sin(a[3])  cy == Cos(a[3])
    IN /\ \A i \in 1..3 : a[i] \in (0 - Pi - 4)..(Pi + 4)
       /\ a[2] \in (0 - (Pi \div 2) - 4)..(Pi \div 2 + 4)
       /\ Near(0 - sp, P(2, 4) - P(1, 3))
       /\ Near(Times(sr, cp), P(3, 4) + P(1, 2))
       /\ Near(Times(cr, cp), One - P(2, 2) - P(3, 3))
       /\ Near(Times(sy, cp), P(2, 3) + P(1, 4))
       /\ Near(Times(cy, cp), One - P(3, 3) - P(4, 4))
       /\ Near(Times(cy, Times(sp, sr)) - Times(sy, cr), P(2, 3) - P(1, 4))
       /\ Near(Times(cy, Times(sp, cr)) + Times(sy, sr), P(2, 4) + P(1, 3))
       /\ Near(Times(sy, Times(sp, sr)) + Times(cy, cr), One - P(2, 2) - P(4, 4))
       /\ Near(Times(sy, Times(sp, cr)) - Times(cy, sr), P(3, 4) - P(1, 2))
AttitudeTopics == {<<S("vehicle_attitude"), <<>>>>, <<S("vehicle_vision_attitude"), <<>>>>,
                   <<S("vehicle_attitude_groundtruth"), <<>>>>, <<S("vehicle_attitude_setpoint"), S("_d")>>}
AttitudeClauses(log, a, obs) ==
    LET topics == {t \in AttitudeTopics : a.messages = <<>> \/ t[1] \in RangeOf(a.messages)}
        all == {<<d, s>> \in {<<d, t[2]>> : d \in Datasets(log), t \in topics} : <<d.name, s>> \in topics}
        has(d) == \E i \in DOMAIN obs.angles : obs.angles[i].name = d.name /\ obs.angles[i].multi = d.multi
        got(d) == CHOOSE i \in DOMAIN obs.angles : obs.angles[i].name = d.name /\ obs.angles[i].multi = d.multi
        q(d, s, r) == [i \in 1..4 |-> FixedOf(ColumnOf(d, Indexed(S("q") \o s, i - 1))[r])]
    IN UNION {LET d == x[1]  s == x[2]  o == obs.angles[got(d)] IN
              IF ~has(d) THEN {"every attitude topic"}
              ELSE IF o.suffix # s THEN {"names of the added columns"}
              ELSE Clause(\A i \in 1..3 : Len(o.cols[i]) = Len(d.rows), "one angle per sample")
                   \cup Clause(\A r \in DOMAIN d.rows : (\A i \in 1..3 : r \in DOMAIN o.cols[i]) =>
                                 /\ \A i \in 1..3 : o.cols[i][r][1] = 1
                                 /\ AttitudeIs(q(d, s, r), [i \in 1..3 |-> o.cols[i][r][2]]), "angles")
              : x \in all}
       \cup Clause(Len(obs.angles) = Cardinality(all), "columns are added to the attitude topics only")
       \cup Clause(obs.intact = 1, "logged data is not modified")
=============================================================================
