------------------------------- MODULE Logger -------------------------------
(***************************************************************************)
(* The other side of ULogReader: a logger that writes a ULog file message  *)
(* by message, and the adversary (power loss, damage, appended data).      *)
(*                                                                         *)
(* A message is an abstract record; Bytes(m) is its encoding; Record(m, t) *)
(* adds it to the truth t, i.e. what was logged.  Nothing in the truth is  *)
(* computed from bytes, so "the reader gives the truth" is a statement     *)
(* about the file format and the reader.                                   *)
(***************************************************************************)
EXTENDS ULogReader

(* ---- encoding ---------------------------------------------------------- *)
Frame(type, p) == Enc16(Len(p)) \o <<type>> \o p
KVBytes(ty, key, raw) == LET k == S(ty) \o <<Space>> \o key IN <<Len(k)>> \o k \o raw
FieldBytes(fld) == fld[1] \o (IF fld[2] = 0 THEN <<>> ELSE <<OpenB>> \o Digits(fld[2]) \o <<CloseB>>)
                   \o <<Space>> \o fld[3] \o <<Semicolon>>

(* a value: ty "char" (a text), a basic type or an array type *)
Txt(b) == [k |-> "s", t |-> S("char") \o <<OpenB>> \o Digits(Len(b)) \o <<CloseB>>, b |-> b]
Num(ty, b) == [k |-> "n", t |-> S(ty), b |-> b]
Raw(ty, b) == [k |-> "b", t |-> S(ty), b |-> b]
KV2(key, v) == LET k == v.t \o <<Space>> \o S(key) IN <<Len(k)>> \o k \o v.b

BytesOf(m) ==
    CASE m.m = "format" -> Frame(MF, S(m.name) \o <<Colon>> \o FlattenSeq([i \in DOMAIN m.fields |-> FieldBytes(m.fields[i])]))
      [] m.m = "info" -> Frame(MI, KV2(m.key, m.val))
      [] m.m = "multi" -> Frame(MM, <<m.cont>> \o KV2(m.key, m.val))
      [] m.m = "param" -> Frame(MP, KV2(m.key, m.val))
      [] m.m = "default" -> Frame(MQ, <<m.bits>> \o KV2(m.key, m.val))
      [] m.m = "subscribe" -> Frame(MA, <<m.multi>> \o Enc16(m.id) \o S(m.name))
      [] m.m = "sample" -> Frame(MD, Enc16(m.id) \o m.row \o m.pad)
      [] m.m = "text" -> Frame(ML, <<m.level>> \o Enc64(m.ts) \o m.text)
      [] m.m = "tagged" -> Frame(MC, <<m.level>> \o Enc16(m.tag) \o Enc64(m.ts) \o m.text)
      [] m.m = "dropout" -> Frame(MO, Enc16(m.ms))
      [] m.m = "sync" -> Frame(MS, SyncBytes)
      [] m.m = "remove" -> Frame(MR, Enc16(m.id))
      [] m.m = "unknown" -> Frame(m.type, m.body)
      [] m.m = "bad" -> Frame(MD, Enc16(m.id) \o m.row)

(* ---- the truth ---------------------------------------------------------- *)
Nothing == [start |-> Zero64, last |-> Zero64, formats |-> TheEmptyFcn, infos |-> TheEmptyFcn,
            multi |-> TheEmptyFcn, initial |-> TheEmptyFcn, defaults |-> TheEmptyFcn,
            changed |-> <<>>, msgs |-> <<>>, tagged |-> <<>>, dropouts |-> <<>>,
            subs |-> TheEmptyFcn, rows |-> <<>>, corrupt |-> FALSE]

Text2(v) == IF v.k = "s" THEN [v EXCEPT !.b = Clean(v.b)] ELSE v
AddDefault(d, g, bits, key, val) ==
    IF (g = 0 /\ bits % 2 = 1) \/ (g = 1 /\ bits \div 2 = 1)
    THEN Put(IF g \in DOMAIN d THEN d[g] ELSE TheEmptyFcn, key, val)
    ELSE d[g]
Record(m, data, t) ==
    CASE m.m = "format" -> [t EXCEPT !.formats = Put(@, S(m.name), m.fields)]
      [] m.m = "info" -> [t EXCEPT !.infos = Put(@, S(m.key), Text2(m.val))]
      [] m.m = "multi" ->
            [t EXCEPT !.multi =
                LET k == S(m.key)  v == Text2(m.val)
                    old == IF k \in DOMAIN @ THEN @[k] ELSE <<>>
                IN Put(@, k, IF m.cont = 1 /\ old # <<>>
                             THEN [old EXCEPT ![Len(old)] = Append(@, v)]
                             ELSE Append(old, <<v>>))]
      [] m.m = "param" ->
            IF data THEN [t EXCEPT !.changed = Append(@, <<t.last, S(m.key), m.val>>)]
            ELSE [t EXCEPT !.initial = Put(@, S(m.key), m.val)]
      [] m.m = "default" ->
            [t EXCEPT !.defaults =
                [g \in DOMAIN @ \cup {x \in {0, 1} : (m.bits \div (x + 1)) % 2 = 1} |->
                    AddDefault(@, g, m.bits, S(m.key), m.val)]]
      [] m.m = "subscribe" -> [t EXCEPT !.subs = Put(@, m.id, [name |-> S(m.name), multi |-> m.multi])]
      [] m.m = "sample" -> [t EXCEPT !.rows = Append(@, <<m.id, m.row>>), !.last = Max64(@, Enc64(m.ts))]
      [] m.m = "text" -> [t EXCEPT !.msgs = Append(@, <<m.level, Enc64(m.ts), Clean(m.text)>>)]
      [] m.m = "tagged" -> [t EXCEPT !.tagged = Append(@, <<m.tag, m.level, Enc64(m.ts), Clean(m.text)>>)]
      [] m.m = "dropout" -> [t EXCEPT !.dropouts = Append(@, <<t.last, m.ms>>)]
      [] m.m = "bad" -> [t EXCEPT !.corrupt = TRUE]
      [] OTHER -> t

(* ---- does a loaded log say the truth? ------------------------------------ *)
RowsOf(t, id) == LET own == SelectSeq(t.rows, LAMBDA r : r[1] = id)
                 IN [i \in DOMAIN own |-> own[i][2]]
SameMeta(l, t) ==
    /\ l.start = t.start
    /\ l.formats = t.formats /\ l.infos = t.infos
    /\ DOMAIN l.multi = DOMAIN t.multi
    /\ \A k \in DOMAIN t.multi : l.multi[k].lists = t.multi[k]
SameParams(l, t) == l.initial = t.initial /\ l.defaults = t.defaults /\ l.changed = t.changed
SameRows(l, t, names) ==
    {[name |-> d.name, multi |-> d.multi, rows |-> d.rows] : d \in Datasets(l)}
    = {[name |-> t.subs[i].name, multi |-> t.subs[i].multi, rows |-> RowsOf(t, i)] :
          i \in {j \in DOMAIN t.subs : RowsOf(t, j) # <<>> /\ t.subs[j].name \in names}}
AllNames(t) == {t.subs[i].name : i \in DOMAIN t.subs}
SameTexts(l, t) == l.msgs = t.msgs /\ l.tagged = t.tagged
SameTimes(l, t) == l.dropouts = t.dropouts /\ l.last = t.last
Says(l, t) == /\ SameMeta(l, t) /\ SameParams(l, t) /\ SameRows(l, t, AllNames(t))
              /\ SameTexts(l, t) /\ SameTimes(l, t)
(* l has at least what t has (t is a prefix of what is in the file) *)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AtLeast(l, t) ==
    /\ l.start = t.start /\ l.formats = t.formats
    /\ DOMAIN t.infos \subseteq DOMAIN l.infos
    /\ IsPrefixOf(t.changed, l.changed) /\ IsPrefixOf(t.msgs, l.msgs)
    /\ IsPrefixOf(t.tagged, l.tagged) /\ IsPrefixOf(t.dropouts, l.dropouts)
    /\ \A i \in DOMAIN t.subs : RowsOf(t, i) # <<>> =>
          i \in DOMAIN l.subs /\ IsPrefixOf(RowsOf(t, i), l.subs[i].rows)
=============================================================================
