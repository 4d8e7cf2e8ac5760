--------------------------- MODULE StoreSessions ---------------------------
(***************************************************************************)
(* Sessions on one SQLite database, statement by statement.  A log is a    *)
(* head row (with the unique checksum) and the parts 1..Parts.  Each       *)
(* session performs operations one after another:                          *)
(*   save    look for the checksum (a transaction of its own), then in one *)
(*           transaction insert the head and the parts, commit             *)
(*   delete  in one transaction delete the head and, cascading, the parts  *)
(*   load    read the head and the parts, in one transaction               *)
(* SQLite (rollback journal): a reader holds SHARED, the one writer        *)
(* RESERVED; a commit needs that nobody else holds SHARED; whoever does    *)
(* not get a lock gets an error and is rolled back.                        *)
(*                                                                         *)
(* The configurations LoadInOne = FALSE and SaveInOne = FALSE are the      *)
(* broken protocols: without one transaction the properties fail.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sessions, Contents, Parts, MaxOps, LoadInOne, SaveInOne

VARIABLES db,        \* committed rows: key -> [c: content, parts: set]
          next,      \* next primary key
          work,      \* session -> the rows it would commit (its uncommitted view)
          lock,      \* session -> "none", "shared", "reserved"
          pc,        \* session -> position in its operation
          got,       \* session -> what a load has read: [c, parts]
          known,     \* session -> key it works on
          ops,       \* operations started so far
          results    \* what the operations reported
vars == <<db, next, work, lock, pc, got, known, ops, results>>

NoRows == [x \in {} |-> 0]
All == 1..Parts
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
KeysOf(rows, c) == {p \in DOMAIN rows : rows[p].c = c}

Init == /\ db = NoRows /\ next = 1 /\ work = [s \in Sessions |-> NoRows]
        /\ lock = [s \in Sessions |-> "none"] /\ pc = [s \in Sessions |-> <<"idle">>]
        /\ got = [s \in Sessions |-> [c |-> 0, parts |-> {}]] /\ known = [s \in Sessions |-> 0]
        /\ ops = 0 /\ results = {}

At(s, x) == pc[s] = x
Go(s, x) == pc' = [pc EXCEPT ![s] = x]
Others(s) == Sessions \ {s}
NobodyWrites(s) == \A t \in Others(s) : lock[t] # "reserved"
NobodyReads(s) == \A t \in Others(s) : lock[t] = "none"
Finish(s, r) == Go(s, <<"idle">>) /\ results' = results \cup {r} /\ lock' = [lock EXCEPT ![s] = "none"]
Busy(s) == Finish(s, [op |-> "busy"]) /\ UNCHANGED <<db, next, work, got, known, ops>>

Start(s) ==
    /\ At(s, <<"idle">>) /\ ops < MaxOps /\ ops' = ops + 1
    /\ \/ \E c \in Contents : Go(s, <<"check", c>>) /\ UNCHANGED known
       \/ \E p \in 1..(next - 1), o \in {"remove", "head"} : Go(s, <<o>>) /\ known' = [known EXCEPT ![s] = p]
    /\ UNCHANGED <<db, next, work, lock, got, results>>

(* save *)
Check(s) == \E c \in Contents : At(s, <<"check", c>>) /\
    IF KeysOf(db, c) # {} THEN Finish(s, [op |-> "refused"]) /\ UNCHANGED <<db, next, work, got, known, ops>>
    ELSE Go(s, <<"insert", c>>) /\ UNCHANGED <<db, next, work, lock, got, known, ops, results>>
InsertHead(s) == \E c \in Contents : At(s, <<"insert", c>>) /\
    IF ~NobodyWrites(s) THEN Busy(s)
    ELSE IF KeysOf(db, c) # {}      \* the checksum is unique
    THEN Finish(s, [op |-> "refused"]) /\ UNCHANGED <<db, next, work, got, known, ops>>
    ELSE /\ work' = [work EXCEPT ![s] = Put(db, next, [c |-> c, parts |-> {}])]
         /\ known' = [known EXCEPT ![s] = next]
         /\ lock' = [lock EXCEPT ![s] = "reserved"] /\ Go(s, <<"part", 1>>)
         /\ IF SaveInOne THEN UNCHANGED <<db, next>> ELSE db' = work'[s] /\ next' = next + 1
         /\ UNCHANGED <<got, ops, results>>
InsertPart(s) == \E i \in All : At(s, <<"part", i>>) /\
    /\ work' = [work EXCEPT ![s][known[s]].parts = @ \cup {i}]
    /\ Go(s, IF i = Parts THEN <<"commit">> ELSE <<"part", i + 1>>)
    /\ IF SaveInOne THEN UNCHANGED db ELSE db' = work'[s]
    /\ UNCHANGED <<next, lock, got, known, ops, results>>
Commit(s) == At(s, <<"commit">>) /\
    IF ~NobodyReads(s) THEN Busy(s)
    ELSE /\ db' = work[s] /\ next' = IF known[s] = next THEN next + 1 ELSE next
         /\ Finish(s, [op |-> "done"]) /\ UNCHANGED <<work, got, known, ops>>
(* delete *)
Remove(s) == At(s, <<"remove">>) /\
    IF ~NobodyWrites(s) THEN Busy(s)
    ELSE /\ work' = [work EXCEPT ![s] = Drop(db, known[s])]
         /\ lock' = [lock EXCEPT ![s] = "reserved"] /\ Go(s, <<"commit">>)
         /\ UNCHANGED <<db, next, got, known, ops, results>>
(* load *)
ReadHead(s) == At(s, <<"head">>) /\
    IF known[s] \notin DOMAIN db
    THEN Finish(s, [op |-> "missing"]) /\ UNCHANGED <<db, next, work, got, known, ops>>
    ELSE /\ got' = [got EXCEPT ![s] = [c |-> db[known[s]].c, parts |-> {}]]
         /\ lock' = [lock EXCEPT ![s] = IF LoadInOne THEN "shared" ELSE "none"] /\ Go(s, <<"read", 1>>)
         /\ UNCHANGED <<db, next, work, known, ops, results>>
ReadPart(s) == \E i \in All : At(s, <<"read", i>>) /\
    LET here == known[s] \in DOMAIN db /\ i \in db[known[s]].parts
        g == [got[s] EXCEPT !.parts = IF here THEN @ \cup {i} ELSE @]
    IN /\ got' = [got EXCEPT ![s] = g]
       /\ IF i = Parts THEN Finish(s, [op |-> "loaded", c |-> g.c, parts |-> g.parts])
          ELSE Go(s, <<"read", i + 1>>) /\ UNCHANGED <<lock, results>>
       /\ UNCHANGED <<db, next, work, known, ops>>

Next == \E s \in Sessions : \/ Start(s) \/ Check(s) \/ InsertHead(s) \/ InsertPart(s) \/ Commit(s)
                            \/ Remove(s) \/ ReadHead(s) \/ ReadPart(s)
Spec == Init /\ [][Next]_vars

LoadsComplete == \A r \in results : r.op = "loaded" => r.parts = All
StoredComplete == \A p \in DOMAIN db : db[p].parts = All
OneCopy == \A p, q \in DOMAIN db : db[p].c = db[q].c => p = q
OneWriter == \A s, t \in Sessions : lock[s] = "reserved" /\ lock[t] = "reserved" => s = t
KeysGrow == [][next' >= next /\ \A p \in DOMAIN db' \ DOMAIN db : p >= next]_vars

(* every commit adds or removes one whole log *)
Whole == [][LET a == DOMAIN db  b == DOMAIN db' IN
            /\ Cardinality(a \ b) + Cardinality(b \ a) <= 1
            /\ \A p \in a \cap b : db[p] = db'[p]]_vars
=============================================================================
