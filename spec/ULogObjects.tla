---------------------------- MODULE ULogObjects ----------------------------
(***************************************************************************)
(* Log objects in one process.  objs maps the living objects to the load   *)
(* they come from (content of the file and options of the load); `spoilt`  *)
(* are objects whose contents somebody modified.  disk is the content at a *)
(* path; it may change between loads.  What an object shows is a function  *)
(* of its own load only.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES objs, spoilt, disk
ovars == <<objs, spoilt, disk>>

ObjectsInit == objs = [x \in {} |-> 0] /\ spoilt = {} /\ disk = 0
PutO(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RemoveO(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Alive(k) == k \in DOMAIN objs

(* f: content, o: options; onpath: the content is put at the path first *)
Load(k, f, o, onpath) == /\ objs' = PutO(objs, k, <<f, o>>) /\ spoilt' = spoilt \ {k}
                         /\ disk' = IF onpath THEN f ELSE disk
(* the name keeps the object it had *)
LoadRefused(k, f, o, onpath) == UNCHANGED <<objs, spoilt>> /\ disk' = IF onpath THEN f ELSE disk
Use(k) == Alive(k) /\ k \notin spoilt /\ UNCHANGED ovars        \* lookups, queries
Write(k) == Use(k)
Spoil(k) == Alive(k) /\ spoilt' = spoilt \cup {k} /\ UNCHANGED <<objs, disk>>
Drop(k) == Alive(k) /\ objs' = RemoveO(objs, k) /\ spoilt' = spoilt \ {k} /\ UNCHANGED disk
Shown(k) == objs[k]

(* an operation changes what at most one object shows *)
Independent == [][Cardinality({k \in DOMAIN objs \cap DOMAIN objs' : objs[k] # objs'[k]})
                  + Cardinality(DOMAIN objs \ DOMAIN objs') <= 1]_ovars
=============================================================================
