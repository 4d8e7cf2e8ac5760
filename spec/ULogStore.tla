----------------------------- MODULE ULogStore -----------------------------
(***************************************************************************)
(* A database of logs and the log objects that work on it, at the level of *)
(* whole operations.  A content stands for everything in a file; two files *)
(* with the same bytes have the same content.                              *)
(*                                                                         *)
(*   stored   primary key -> content of the log stored under it            *)
(*   used     primary key -> content, for every key that ever denoted a log*)
(*   objs     object -> [c: its content, pk: its key or 0, lazy]           *)
(*                                                                         *)
(* Every operation takes effect completely or not at all.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Savable(_)     \* contents the database can hold

VARIABLES stored, used, objs
svars == <<stored, used, objs>>

None == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Keys(c) == {p \in DOMAIN stored : stored[p] = c}
Find(c) == IF Keys(c) = {} THEN 0 ELSE CHOOSE p \in Keys(c) : TRUE
(* a key that denoted a log never comes to denote a different one *)
Fresh(p, c) == p > 0 /\ p \notin DOMAIN stored /\ (p \in DOMAIN used => used[p] = c)

StoreInit == stored = None /\ used = None /\ objs = None
Unchanged == UNCHANGED svars
HasKey(o) == objs[o].pk # 0
KeyOf(o) == objs[o].pk
ContentOf(o) == objs[o].c

(* ---- objects ------------------------------------------------------------ *)
New(o, c) ==
    /\ objs' = Put(objs, o, [c |-> c, pk |-> 0, lazy |-> FALSE])
    /\ UNCHANGED <<stored, used>>
Open(o, p, lz) ==
    /\ p \in DOMAIN stored
    /\ objs' = Put(objs, o, [c |-> stored[p], pk |-> p, lazy |-> lz])
    /\ UNCHANGED <<stored, used>>
OpenUnknown(o, p) == p \notin DOMAIN stored /\ Unchanged
Load(o, lz) ==
    /\ KeyOf(o) \in DOMAIN stored
    /\ objs' = [objs EXCEPT ![o].lazy = lz]
    /\ UNCHANGED <<stored, used>>
LoadUnknown(o) == KeyOf(o) \notin DOMAIN stored /\ Unchanged

(* ---- saving -------------------------------------------------------------- *)
CanSave(o) == ~HasKey(o) /\ ~objs[o].lazy /\ Savable(ContentOf(o)) /\ Keys(ContentOf(o)) = {}
Save(o, p) ==
    /\ CanSave(o)
    /\ Fresh(p, ContentOf(o))
    /\ stored' = Put(stored, p, ContentOf(o))
    /\ used' = Put(used, p, ContentOf(o))
    /\ objs' = [objs EXCEPT ![o].pk = p]
(* refused: nothing changes, except that the object may learn the key under
   which its content is stored already *)
SaveRefused(o, p) ==
    /\ HasKey(o) \/ Keys(ContentOf(o)) # {}
    /\ p \in {KeyOf(o), Find(ContentOf(o))}
    /\ objs' = [objs EXCEPT ![o].pk = p]
    /\ UNCHANGED <<stored, used>>
SaveLazyRefused(o) == ~HasKey(o) /\ objs[o].lazy /\ Unchanged
(* a fault, or a content that does not fit: the object still counts as unsaved *)
SaveFails(o) == ~HasKey(o) /\ Unchanged
(* the process died: either nothing happened or everything *)
SaveDied(c, p) ==
    \/ Unchanged
    \/ /\ Keys(c) = {} /\ Savable(c) /\ Fresh(p, c)
       /\ stored' = Put(stored, p, c) /\ used' = Put(used, p, c) /\ UNCHANGED objs

(* ---- deleting ------------------------------------------------------------ *)
Delete(o) ==
    /\ HasKey(o) /\ KeyOf(o) \in DOMAIN stored
    /\ stored' = Without(stored, KeyOf(o))
    /\ objs' = [objs EXCEPT ![o].pk = 0]
    /\ UNCHANGED used
DeleteRefused(o) == ~HasKey(o) /\ Unchanged
(* another object deleted the log before *)
DeleteGone(o, p) ==
    /\ HasKey(o) /\ KeyOf(o) \notin DOMAIN stored
    /\ p \in {0, KeyOf(o)}
    /\ objs' = [objs EXCEPT ![o].pk = p]
    /\ UNCHANGED <<stored, used>>
DeleteFails(o) == HasKey(o) /\ Unchanged
DeleteDied(p) ==
    \/ Unchanged
    \/ p \in DOMAIN stored /\ stored' = Without(stored, p) /\ UNCHANGED <<used, objs>>

(* ---- what every history satisfies ---------------------------------------- *)
OneCopy == \A p, q \in DOMAIN stored : stored[p] = stored[q] => p = q
KeyDenotesContent == \A o \in DOMAIN objs :
    KeyOf(o) \in DOMAIN stored => stored[KeyOf(o)] = ContentOf(o)
UsedCovers == \A p \in DOMAIN stored : used[p] = stored[p]
OnlySavable == \A p \in DOMAIN stored : Savable(stored[p])
KeysAreForever == [][\A p \in DOMAIN used : p \in DOMAIN used' /\ used'[p] = used[p]]_svars
OthersUntouched == [][\A p \in DOMAIN stored \cap DOMAIN stored' : stored[p] = stored'[p]]_svars
OneAtATime == [][Cardinality(DOMAIN stored \ DOMAIN stored') + Cardinality(DOMAIN stored' \ DOMAIN stored) <= 1]_svars
=============================================================================
