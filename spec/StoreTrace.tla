----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Validation of recorded database histories against ULogStore.  An event  *)
(* has the operation, its arguments, what it reported and what the whole   *)
(* database looked like afterwards:                                        *)
(*   op, o, c, p, lazy   operation, object, content, key, lazy load         *)
(*   fault      1 if a fault was injected into the operation               *)
(*   outcome    "ok", "died" (the process was killed) or the exception     *)
(*   pk         the primary key of the object afterwards (0: none)         *)
(*   content    for a full load: the content it equals (0: none)           *)
(*   added, removed   table rows added and removed by the operation        *)
(*   find       for every content the key found by its checksum (0: none)  *)
(*   loads      <<key, content>> for every key found: what a full load     *)
(*              from a new session gives (0: no complete log)              *)
(*   exists     the keys that exist_in_db reports, among all keys seen     *)
(***************************************************************************)
EXTENDS ULogStore, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, ei, rows, stuck
vars == <<stored, used, objs, ci, ei, rows, stuck>>
Case == Cases[ci]
More == ei <= Len(Case.events) /\ ~stuck
E == Case.events[ei]
TraceSavable(c) == Case.savable[c] = 1

Init == StoreInit /\ ci \in 1..Len(Cases) /\ ei = 1 /\ rows = None /\ stuck = FALSE

SetOf(s) == {s[i] : i \in DOMAIN s}
Ok == E.outcome = "ok"
Refused == E.outcome = "KeyError"
Failed == E.outcome # "ok"
Faulty == E.fault = 1
ObjKey == E.pk = objs'[E.o].pk
Op(name) == E.op = name
Lazy == E.lazy = 1

(* rows of the database belong to the stored logs and to nothing else *)
NoRows == Len(E.added) = 0 /\ Len(E.removed) = 0 /\ UNCHANGED rows
RowsSaved(p) == Len(E.added) > 0 /\ Len(E.removed) = 0 /\ rows' = Put(rows, p, SetOf(E.added))
RowsDeleted(p) == /\ Len(E.added) = 0 /\ SetOf(E.removed) = rows[p] /\ rows' = Without(rows, p)
RowsFollow ==
    LET new == DOMAIN stored' \ DOMAIN stored
        gone == DOMAIN stored \ DOMAIN stored'
    IN IF new # {} THEN RowsSaved(CHOOSE p \in new : TRUE)
       ELSE IF gone # {} THEN RowsDeleted(CHOOSE p \in gone : TRUE)
       ELSE NoRows
(* what any session can see of the database is exactly what is stored *)
DatabaseSeen ==
    /\ \A c \in DOMAIN E.find : E.find[c] = Find(c)'
    /\ SetOf(E.loads) = {<<p, stored'[p]>> : p \in DOMAIN stored'}
    /\ SetOf(E.exists) = DOMAIN stored'

Explain(A) == A /\ RowsFollow /\ DatabaseSeen /\ ei' = ei + 1 /\ UNCHANGED <<ci, stuck>>

DoNew == Op("new") /\ Ok /\ Explain(New(E.o, E.c) /\ ObjKey)
DoOpen == /\ Op("open")
          /\ \/ Ok /\ (E.content = stored[E.p] \/ Lazy) /\ Explain(Open(E.o, E.p, Lazy) /\ ObjKey)
             \/ Refused /\ Explain(OpenUnknown(E.o, E.p))
DoLoad == /\ Op("load")
          /\ \/ Ok /\ KeyOf(E.o) \in DOMAIN stored /\ (E.content = stored[KeyOf(E.o)] \/ Lazy)
                /\ Explain(Load(E.o, Lazy) /\ ObjKey)
             \/ Refused /\ Explain(LoadUnknown(E.o) /\ ObjKey)
DoSave ==
    /\ Op("save")
    /\ \/ Ok /\ Explain(Save(E.o, E.pk) /\ ObjKey)
       \/ Refused /\ Explain(SaveRefused(E.o, E.pk))
       \/ Failed /\ ~Refused /\ Explain(SaveLazyRefused(E.o) /\ ObjKey)
       \/ Failed /\ (Faulty \/ (~TraceSavable(ContentOf(E.o)) /\ ~Refused)) /\ Explain(SaveFails(E.o) /\ ObjKey)
       \/ Failed /\ Faulty /\ Explain(SaveRefused(E.o, E.pk))
DoDelete ==
    /\ Op("delete")
    /\ \/ Ok /\ Explain((Delete(E.o) \/ DeleteGone(E.o, E.pk)) /\ ObjKey)
       \/ Refused /\ Explain((DeleteRefused(E.o) \/ DeleteGone(E.o, E.pk)) /\ ObjKey)
       \/ Failed /\ Faulty /\ Explain((DeleteFails(E.o) \/ DeleteRefused(E.o)) /\ ObjKey)
DoDied ==
    \/ Op("savedies") /\ E.outcome = "died" /\ Explain(SaveDied(E.c, E.find[E.c]))
    \/ Op("savedies") /\ Ok /\ Keys(E.c) = {} /\ Explain(SaveDied(E.c, E.find[E.c]) /\ stored' # stored)
    \/ Op("savedies") /\ Refused /\ Keys(E.c) # {} /\ Explain(Unchanged)
    \/ Op("deletedies") /\ E.outcome = "died" /\ Explain(DeleteDied(E.p))
    \/ Op("deletedies") /\ Ok /\ Explain(DeleteDied(E.p) /\ E.p \notin DOMAIN stored')
    \/ Op("deletedies") /\ Refused /\ E.p \notin DOMAIN stored /\ Explain(Unchanged)

Explained == DoNew \/ DoOpen \/ DoLoad \/ DoSave \/ DoDelete \/ DoDied
Unexplained == /\ stuck' = TRUE /\ UNCHANGED <<stored, used, objs, ci, ei, rows>>
Next == More /\ (Explained \/ (~ENABLED Explained /\ Unexplained))
Spec == Init /\ [][Next]_vars

Describe == "event " \o ToString(ei) \o ": " \o E.op \o " reported " \o E.outcome
            \o ", which no transition of the specification explains"
Report == ~More => PrintT(ToJson([case |-> ci, unspec |-> FALSE, failed |-> IF stuck THEN {Describe} ELSE {}]))
=============================================================================
