----------------------------- MODULE ToolsTrace -----------------------------
(***************************************************************************)
(* Validation of recorded runs of the tools against ULogTools.  A case has *)
(*   file   the log (bytes),  strict  1 if invalid text is refused         *)
(*   tool   which tool,  args  its arguments                               *)
(*   obs    what the tool gave, with obs.outcome "ok" or the exception     *)
(* The machine reads the log with the reader of the specification.         *)
(***************************************************************************)
EXTENDS ULogTools, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, st
vars == <<ci, st>>
Case == Cases[ci]
A == Case.args
O == Case.obs
(* the tool may restrict what it loads: no effect on what it gives, other than the time bounds *)
Opts == [DefaultOptions EXCEPT !.strict = Case.strict = 1, !.all = Case.all = 1, !.names = RangeOf(Case.names)]
Init == ci \in 1..Len(Cases) /\ st = Start
Read == st.phase # "done" /\ st' = Step(Case.file, Opts, st) /\ UNCHANGED ci
Next == Read
Spec == Init /\ [][Next]_vars

Log == st.log
(* runs that the tool refuses *)
Refused ==
    CASE Case.tool = "extract" -> \A d \in Datasets(Log) : d.name # A.topic
      [] Case.tool = "params" -> NoDefaults(Log, A)
      [] Case.tool = "kml" -> NoTopic(Log, A)
      [] Case.tool = "gps" -> GpsWrongFormat(Log)
      [] OTHER -> FALSE
Open_ ==
    CASE Case.tool = "extract" -> ~Refused /\ InstanceOf(Log, A.topic, 0) = {}
      [] Case.tool = "gps" -> \E d \in Datasets(Log) : d.name = S("gps_dump") /\ d.multi # 0
      [] OTHER -> FALSE
Clauses ==
    CASE Case.tool = "csv" -> CsvClauses(Log, A, O)
      [] Case.tool = "extract" -> ExtractClauses(Log, A, O)
      [] Case.tool = "params" -> Clause(LinesMatch(ParamLines(Log, A), O.lines), "listed parameters")
      [] Case.tool = "gps" -> GpsClauses(Log, A, O)
      [] Case.tool = "info" -> InfoClauses(Log, A, O)
      [] Case.tool = "multi" -> MultiClauses(Log, A, O)
      [] Case.tool = "kml" -> KmlClauses(Log, A, O)
      [] Case.tool = "ros" -> RosClauses(Log, A, O)
      [] Case.tool = "messages" -> MessageClauses(Log, A, O)
      [] Case.tool = "events" -> EventClauses(Log, A, O)
      [] Case.tool = "changes" -> ChangesClauses(Log, A, O)
      [] Case.tool = "lookup" -> LookupClauses(Log, A, O)
      [] Case.tool = "attitude" -> AttitudeClauses(Log, A, O)
Verdict ==
    IF st.out # "ok" \/ Refused
    THEN Clause(O.outcome \notin {"ok", "timeout"}, "not refused: " \o O.outcome)
    ELSE IF O.outcome # "ok" THEN {"outcome: " \o O.outcome}
    ELSE Clauses
Report == st.phase = "done" =>
    PrintT(ToJson([case |-> ci, unspec |-> st.out = "unspec" \/ (st.out = "ok" /\ Open_),
                   failed |-> IF st.out = "unspec" \/ (st.out = "ok" /\ Open_) THEN {} ELSE Verdict]))
=============================================================================
