---------------------------- MODULE MC_Migration ----------------------------
(* every combination of script kinds, initial databases, and up to MaxRuns   *)
(* runs that may die anywhere; Export prints each history of runs            *)
EXTENDS Migration, Json, IOUtils
VARIABLES hist, runs
vars == <<disk, scripts, cur, run, hist, runs>>
Cur == 3
MaxRuns == atoi(IOEnv.MAXRUNS)
Kinds == {"good", "missing", "unwrapped", "failing"}
AllGood == [i \in 1..Cur |-> "good"]
(* at most two scripts are not good *)
ScriptSets == {s \in [1..Cur -> Kinds] : Cardinality({i \in 1..Cur : s[i] # "good"}) <= 2}
Starts == {Absent, Foreign} \cup {AtVersion(v) : v \in 1..(Cur + 1)}
Name(d) == IF ~d.exists THEN 0 - 2 ELSE IF d.ver = 0 THEN 0 - 1 ELSE d.ver
Bit(b) == IF b THEN 1 ELSE 0
Init == /\ cur = Cur /\ scripts \in ScriptSets /\ disk \in Starts /\ run = Idle
        /\ hist = <<<<"init", Name(disk), scripts>>>> /\ runs = 0
Out(h) == PrintT(ToJson([hist |-> h]))
MCBegin == runs < MaxRuns /\ runs' = runs + 1 /\ \E noop, force \in BOOLEAN :
             Begin(noop, force) /\ hist' = Append(hist, <<"run", Bit(noop), Bit(force)>>)
MCRepair == scripts # AllGood /\ Repair(AllGood) /\ runs > 0 /\ hist' = Append(hist, <<"repair">>) /\ UNCHANGED runs
MCDie == Die /\ hist' = Append(hist, <<"died", IF run.pc = "inside" THEN run.n ELSE 0>>) /\ UNCHANGED runs
MCProgress == Progress /\ UNCHANGED runs
              /\ hist' = IF run'.pc = "idle" THEN Append(hist, <<"ended", run'.out>>) ELSE hist
Next == (MCBegin \/ MCRepair \/ MCDie \/ MCProgress) /\ (hist' # hist /\ run'.pc = "idle" => Out(hist'))
Spec == Init /\ [][Next]_vars
StateView == <<disk, scripts, run, runs, Len(hist)>>
RerunCompletes == run.out = "ok" /\ hist[Len(hist)] = <<"ended", "ok">> /\ hist[Len(hist) - 1][2] = 0
                  => disk.ver >= cur
=============================================================================
