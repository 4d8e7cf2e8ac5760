--------------------------- MODULE MigrationTrace ---------------------------
(***************************************************************************)
(* Validation of recorded migrations against Migration.  A case has        *)
(*   cur      the schema version of the code                               *)
(*   exists, ver, done   the database at first                             *)
(*   events   runs: noop, force, fault (1: something was made to fail or   *)
(*            the process was killed), scripts (their kinds), outcome, and *)
(*            afterwards exists, ver, done, kept (1: everything that was   *)
(*            stored is still there), accepted (1: log objects can be made *)
(*            on the database, 0: refused with ValueError, 2: neither),    *)
(*            foreign (1: the tables of somebody else are as before)       *)
(***************************************************************************)
EXTENDS Migration, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ei
vars == <<disk, scripts, cur, run, ci, ei>>
Case == Cases[ci]
E == Case.events[ei]
More == ei <= Len(Case.events)
Init == /\ ci \in 1..Len(Cases) /\ ei = 1
        /\ cur = Case.cur /\ run = Idle
        /\ disk = [exists |-> Case.exists = 1, ver |-> Case.ver, done |-> Case.done]
        /\ scripts = Case.events[1].scripts

Changed == More /\ run.pc = "idle" /\ scripts # E.scripts /\ Repair(E.scripts) /\ UNCHANGED <<ci, ei>>
StartRun == /\ More /\ run.pc = "idle" /\ scripts = E.scripts
            /\ Begin(E.noop = 1, E.force = 1) /\ UNCHANGED <<ci, ei>>

Failures == {"ValueError", "FileNotFoundError", "OperationalError"}
OutcomeMatches ==
    CASE run'.out = "ok" -> E.outcome = "ok"
      [] run'.out = "refused" -> E.outcome = "FileExistsError"
      [] run'.out = "error" ->
            IF run.pc = "inside" THEN E.outcome \notin {"ok", "died", "timeout"}
            ELSE IF Kind(run.n) = "missing" THEN E.outcome = "FileNotFoundError"
            ELSE E.outcome = "ValueError"
      [] OTHER -> E.fault = 1 /\ E.outcome \notin {"ok", "timeout"}
DiskMatches ==
    /\ E.ver = disk'.ver /\ E.done = disk'.done
    /\ \/ (E.exists = 1) = disk'.exists
       \/ (E.noop = 1 \/ E.fault = 1) /\ disk'.done = <<>>
    /\ E.kept = 1 /\ E.foreign = 1
    /\ disk'.exists => E.accepted = (IF disk'.ver < cur THEN 0 ELSE 1)
Step == /\ More /\ run.pc # "idle" /\ (Progress \/ (E.fault = 1 /\ Die))
        /\ IF run'.pc = "idle" THEN OutcomeMatches /\ DiskMatches /\ ei' = ei + 1 ELSE UNCHANGED ei
        /\ UNCHANGED ci
Next == Changed \/ StartRun \/ Step
Spec == Init /\ [][Next]_vars
Accepted == ~More
Report == Accepted => PrintT(ToJson([accepted |-> ci]))
=============================================================================
