------------------------------ MODULE ConcTrace ------------------------------
(***************************************************************************)
(* Validation of recorded concurrent runs: the operations of the sessions  *)
(* must be explained by some order in which each of them takes effect as   *)
(* one transition of ULogStore (linearizability).  A case has              *)
(*   init   <<key, content>> of the logs stored before                     *)
(*   ops    s, op, c, p, outcome, pk, content, first, last: session,       *)
(*          operation and arguments, what it reported, and the ticks at    *)
(*          which it began and ended                                       *)
(*   find, loads, exists, rows   the database afterwards                   *)
(*   counts number of table rows of each content                           *)
(***************************************************************************)
EXTENDS ULogStore, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, done
vars == <<stored, used, objs, ci, done>>
Case == Cases[ci]
Ops == Case.ops
TraceSavable(c) == TRUE
SetOf(s) == {s[i] : i \in DOMAIN s}
InitStored == [p \in {Case.init[i][1] : i \in DOMAIN Case.init} |->
               (CHOOSE x \in SetOf(Case.init) : x[1] = p)[2]]
Init == /\ ci \in 1..Len(Cases) /\ done = {}
        /\ stored = InitStored /\ used = InitStored /\ objs = None

Overlaps(i) == \E j \in DOMAIN Ops : Ops[j].s # Ops[i].s /\ Ops[j].first < Ops[i].last /\ Ops[i].first < Ops[j].last
Locked(i) == Ops[i].outcome = "OperationalError" /\ Overlaps(i)
Ok(i) == Ops[i].outcome = "ok"
IsKeyError(i) == Ops[i].outcome = "KeyError"
Is(i, name) == Ops[i].op = name

(* the effect of an operation, as ULogStore has it *)
SaveOp(i) ==
    LET c == Ops[i].c IN
    /\ Is(i, "save") /\ UNCHANGED objs
    /\ \/ /\ Ok(i) /\ Keys(c) = {} /\ Fresh(Ops[i].pk, c)
          /\ stored' = Put(stored, Ops[i].pk, c) /\ used' = Put(used, Ops[i].pk, c)
       \/ ~Ok(i) /\ Ops[i].outcome # "timeout" /\ Keys(c) # {} /\ UNCHANGED <<stored, used>>
       \/ Locked(i) /\ UNCHANGED <<stored, used>>
DeleteOp(i) ==
    LET p == Ops[i].p IN
    /\ Is(i, "delete") /\ UNCHANGED <<objs, used>>
    /\ \/ Ok(i) /\ stored' = Without(stored, p)
       \/ IsKeyError(i) /\ p \notin DOMAIN stored /\ UNCHANGED stored
       \/ Locked(i) /\ UNCHANGED stored
(* a load, or a fetch of one dataset: all of the log's, or nothing *)
ReadOp(i) == Ops[i].op \in {"open", "get"} /\ UNCHANGED svars /\
    \/ Ok(i) /\ Ops[i].p \in DOMAIN stored /\ Ops[i].content = stored[Ops[i].p]
    \/ IsKeyError(i) /\ Ops[i].p \notin DOMAIN stored
    \/ Locked(i)
FindOp(i) == Is(i, "find") /\ UNCHANGED svars /\
    \/ Ok(i) /\ Ops[i].pk = Find(Ops[i].c)
    \/ Locked(i)

Ready(i) == i \notin done /\ \A j \in DOMAIN Ops : Ops[j].last < Ops[i].first => j \in done
TakeEffect(i) == Ready(i) /\ (SaveOp(i) \/ DeleteOp(i) \/ ReadOp(i) \/ FindOp(i))
                 /\ done' = done \cup {i} /\ UNCHANGED ci
Next == \E i \in DOMAIN Ops : TakeEffect(i)
Spec == Init /\ [][Next]_vars

RowCount == LET F[S \in SUBSET DOMAIN stored] ==
                    IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN Case.counts[stored[p]] + F[S \ {p}]
            IN F[DOMAIN stored]
FinalMatches ==
    /\ \A c \in DOMAIN Case.find : Case.find[c] = Find(c)
    /\ SetOf(Case.loads) = {<<p, stored[p]>> : p \in DOMAIN stored}
    /\ SetOf(Case.exists) = DOMAIN stored
    /\ Case.rows = RowCount
Accepted == done = DOMAIN Ops /\ FinalMatches
Report == Accepted => PrintT(ToJson([accepted |-> ci]))
=============================================================================
