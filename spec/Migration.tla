----------------------------- MODULE Migration -----------------------------
(***************************************************************************)
(* Schema migration of a database file.  `disk` is what is durable:        *)
(*   exists   whether the file exists                                      *)
(*   ver      the recorded schema version                                  *)
(*   done     the scripts whose effect the schema has, in order; a script  *)
(*            that took effect only in part appears as a negative number   *)
(* A run works through the scripts above the recorded version, each in one *)
(* transaction that also records its version; it can die at any statement. *)
(*   script kinds: "good"; "missing"; "unwrapped" (no BEGIN or no COMMIT); *)
(*                 "failing" (a statement in it fails)                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES disk, scripts, cur, run
mvars == <<disk, scripts, cur, run>>
(* run: the migration that is going on:
     pc "idle" | "start" | "script" | "inside" ; n the script; tx its effect so far *)
Idle == [pc |-> "idle", n |-> 0, tx |-> <<>>, noop |-> FALSE, force |-> FALSE, out |-> "none"]

Absent == [exists |-> FALSE, ver |-> 0, done |-> <<>>]
Foreign == [exists |-> TRUE, ver |-> 0, done |-> <<>>]
UpTo(v) == [i \in 1..v |-> i]
AtVersion(v) == [exists |-> TRUE, ver |-> v, done |-> UpTo(v)]

Begin(noop, force) ==
    /\ run.pc = "idle"
    /\ run' = [Idle EXCEPT !.pc = "start", !.noop = noop, !.force = force]
    /\ UNCHANGED <<disk, scripts, cur>>
Stop(out) == run' = [Idle EXCEPT !.out = out]
(* a database that this tool did not create is only touched when forced *)
Refuse ==
    /\ run.pc = "start" /\ disk.exists /\ disk.ver = 0 /\ ~run.force
    /\ Stop("refused") /\ UNCHANGED <<disk, scripts, cur>>
Open ==
    /\ run.pc = "start" /\ (~disk.exists \/ disk.ver # 0 \/ run.force)
    /\ disk' = [disk EXCEPT !.exists = TRUE]
    /\ run' = [run EXCEPT !.pc = "script", !.n = disk.ver + 1]
    /\ UNCHANGED <<scripts, cur>>
Complete ==
    /\ run.pc = "script" /\ run.n > cur
    /\ Stop("ok") /\ UNCHANGED <<disk, scripts, cur>>
Kind(n) == scripts[n]
(* a dry run reads the scripts, too *)
StopAt ==
    /\ run.pc = "script" /\ run.n <= cur /\ Kind(run.n) \in {"missing", "unwrapped"}
    /\ Stop("error") /\ UNCHANGED <<disk, scripts, cur>>
Skip ==
    /\ run.pc = "script" /\ run.n <= cur /\ run.noop /\ Kind(run.n) \in {"good", "failing"}
    /\ run' = [run EXCEPT !.n = @ + 1] /\ UNCHANGED <<disk, scripts, cur>>
BeginScript ==
    /\ run.pc = "script" /\ run.n <= cur /\ ~run.noop /\ Kind(run.n) \in {"good", "failing"}
    /\ run' = [run EXCEPT !.pc = "inside", !.tx = Append(disk.done, 0 - run.n)]
    /\ UNCHANGED <<disk, scripts, cur>>
Fail ==
    /\ run.pc = "inside" /\ Kind(run.n) = "failing"
    /\ Stop("error") /\ UNCHANGED <<disk, scripts, cur>>
CommitScript ==
    /\ run.pc = "inside" /\ Kind(run.n) = "good"
    /\ disk' = [disk EXCEPT !.done = Append(@, run.n), !.ver = run.n]
    /\ run' = [run EXCEPT !.pc = "script", !.n = @ + 1, !.tx = <<>>]
    /\ UNCHANGED <<scripts, cur>>
(* the process dies, or the database cannot be written: what was not committed is gone *)
Die == run.pc # "idle" /\ Stop("died") /\ UNCHANGED <<disk, scripts, cur>>
(* between runs somebody puts the scripts right *)
Repair(s) == run.pc = "idle" /\ scripts' = s /\ UNCHANGED <<disk, cur, run>>

Progress == Refuse \/ Open \/ Complete \/ StopAt \/ Skip \/ BeginScript \/ Fail \/ CommitScript

(* ---- properties ----------------------------------------------------------- *)
VersionMatchesSchema == disk.done = UpTo(disk.ver)
AllOrNothing == \A i \in DOMAIN disk.done : disk.done[i] > 0
Forward == [][disk'.ver >= disk.ver /\ \A i \in DOMAIN disk.done : i \in DOMAIN disk'.done /\ disk'.done[i] = disk.done[i]]_mvars
OneScript == [][disk'.ver <= disk.ver + 1]_mvars
RefusedUntouched == [][run'.out = "refused" /\ run.pc = "start" => disk' = disk]_mvars
DryRunUntouched == [][run.noop /\ run.pc = "script" => disk' = disk]_mvars
=============================================================================
