---------------------------- MODULE WriterTrace ----------------------------
(***************************************************************************)
(* Validation of recorded writes.  A case has                              *)
(*   w1       the file written from a loaded log (bytes)                   *)
(*   before, after   the log object before and after writing               *)
(*   reload   the log loaded from w1                                       *)
(*   w2       the file written from the reloaded log                       *)
(*   version  the file version of the original                             *)
(*   outcome  "ok" or the exception                                        *)
(*   db       1 if the log object that was written came from a database;   *)
(*            `before` is then the log object of the file itself           *)
(* The machine reads w1 with the reader of the specification, message by   *)
(* message, next to the automaton of the canonical form.                   *)
(***************************************************************************)
EXTENDS ULogObs, ULogWriter, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP

VARIABLES ci, st, canon
vars == <<ci, st, canon>>
Case == Cases[ci]
W == Case.w1
Opts == DefaultOptions

Init == ci \in 1..Len(Cases) /\ st = Start /\ canon = CanonStart
Active == st.phase # "done" /\ Case.outcome = "ok"
K == Kind(W, Opts, st)

Toff(p) == LET id == U16(p, 0) IN IF Len(p) >= 2 /\ id \in DOMAIN st.log.subs THEN st.log.subs[id].toff ELSE 0
Message == CanonNext(canon, Type(W, st), Payload(W, st), Toff(Payload(W, st)))
ReadsMessage == K \notin {"Header", "EndOfDefinitions", "EndOfSegment", "Done"}
Do(kinds) == /\ Active /\ K \in kinds
             /\ st' = Step(W, Opts, st)
             /\ canon' = IF ReadsMessage THEN Message ELSE canon
             /\ UNCHANGED ci
Header == Do({"Header"})
Definition == Do({"DefInfo", "DefMulti", "DefFormat", "DefParam", "DefDefault", "DefFlags"})
BeginData == Do({"EndOfDefinitions"})
Subscription == Do({"Subscribe"})
WrittenSample == Do({"Sample"})
WrittenText == Do({"Text", "TaggedText"})
WrittenDropout == Do({"Dropout"})
WrittenChange == Do({"Param"})
Unexpected == Do({"DefUnknown", "Info", "Multi", "Default", "Sync", "Garbage", "TailGarbage", "Unknown"})
End == Do({"EndOfSegment"})
Next == \/ Header \/ Definition \/ BeginData \/ Subscription \/ WrittenSample \/ WrittenText
        \/ WrittenDropout \/ WrittenChange \/ Unexpected \/ End
Spec == Init /\ [][Next]_vars

(* ---- laws: a written file never becomes canonical again, nothing is lost - *)
BadStays == [][canon.bad \subseteq canon'.bad]_vars

(* ---- comparison of two observations -------------------------------------- *)
(* the property is about logs whose streams are in time order *)
InOrder(ts) == \A i \in 1..(Len(ts) - 1) : Le64(ts[i], ts[i + 1])
TimeOrdered(o) ==
    /\ InOrder([i \in DOMAIN o.msgs |-> o.msgs[i][2]])
    /\ \A t \in DOMAIN o.tagged : InOrder([i \in DOMAIN o.tagged[t][2] |-> o.tagged[t][2][i][2]])
    /\ \A d \in DOMAIN o.data : \A c \in DOMAIN o.data[d].cols :
          o.data[d].cols[c].name = TimestampName => InOrder(o.data[d].cols[c].rows)
SameObserved(a, b) ==
    Clause(Identical(<<a.start, a.last>>, <<b.start, b.last>>), "start or last timestamp")
    \cup Clause(SamePairs(a.formats, b.formats), "formats")
    \cup Clause(SamePairs(a.infos, b.infos), "information")
    \cup Clause(SamePairs(a.multi, b.multi), "multi-part information")
    \cup Clause(SamePairs(a.initial, b.initial), "initial parameters")
    \cup Clause(SamePairs(a.defaults[1], b.defaults[1]) /\ SamePairs(a.defaults[2], b.defaults[2]),
                "default parameters")
    \cup Clause(Identical(a.changed, b.changed), "changed parameters")
    \cup Clause(Identical(a.msgs, b.msgs), "texts")
    \cup Clause(SamePairs(a.tagged, b.tagged), "tagged texts")
    \cup Clause(Identical(a.dropouts, b.dropouts), "dropouts")
    \cup Clause(Identical(a.compat, b.compat), "compatible flags")
    \cup Clause(Len(a.data) = Len(b.data) /\ \A i \in DOMAIN a.data :
                  /\ a.data[i].name = b.data[i].name /\ a.data[i].multi = b.data[i].multi
                  /\ a.data[i].fields = b.data[i].fields
                  /\ SamePairs(a.data[i].cols, b.data[i].cols), "datasets")
Prefixed(prefix, names) == {prefix \o x : x \in names}

C12Clauses ==
    IF Case.outcome # "ok" THEN {"outcome: " \o Case.outcome}
    ELSE Prefixed("reload: ", SameObserved(Case.before, Case.reload))
         \cup Prefixed("written file: ", AllClauses(st.log, Case.before)
                       \cup Clause(st.log.compat = Case.before.compat, "compatible flags"))
         \cup Clause(st.out = "ok" /\ ~st.log.corrupt, "written file is not readable")
         \cup Clause(st.log.version = Case.version, "file version")
C13Clauses ==
    IF Case.outcome # "ok" THEN {"outcome: " \o Case.outcome}
    ELSE canon.bad
         \cup Clause(st.out = "ok" /\ st.pos = Len(W), "the file does not end with a complete message")
         \cup Clause({<<Case.before.data[i].name, Case.before.data[i].multi>> : i \in DOMAIN Case.before.data}
                     = canon.names, "one subscription per dataset")
         \cup Clause(Case.w2 = W, "rewriting gives identical bytes")
         \cup Clause(Case.w1again = W, "writing twice gives identical bytes")
         \cup (IF Case.db = 1 THEN Prefixed("log from the database after writing: ", SameObserved(Case.before, Case.after))
               ELSE Clause(Identical(Case.before, Case.after), "writing changes the log object"))

Complete_ == st.phase = "done" \/ Case.outcome # "ok"
Report == Complete_ => PrintT(ToJson([case |-> ci,
    unspec |-> Prop # "C13" /\ Case.outcome = "ok" /\ ~TimeOrdered(Case.before),
    failed |-> CASE Prop = "C12" -> C12Clauses [] Prop = "C13" -> C13Clauses [] OTHER -> C12Clauses \cup C13Clauses]))
=============================================================================
