------------------------------ MODULE MC_Store ------------------------------
(***************************************************************************)
(* All histories of a small database: contents 1 and 2 can be saved,       *)
(* content 3 cannot; objects 1 and 2 are made from files with content 1,   *)
(* object 3 from content 2, object 4 from content 3; objects 5 and 6 are   *)
(* opened by key.  Export prints, for every transition of the state graph, *)
(* a history that ends with it (the harness replays it on a database).     *)
(***************************************************************************)
EXTENDS ULogStore, Json, IOUtils

VARIABLES hist, saves, last
vars == <<stored, used, objs, hist, saves, last>>
StateView == <<stored, used, objs, saves>>

MaxLen == atoi(IOEnv.MAXLEN)
MaxSaves == atoi(IOEnv.MAXSAVES)
SavableMC(c) == c # 3
Files == <<1, 1, 2, 3>>
Openers == {5, 6}
KeyRange == 1..(MaxSaves + 1)

Do(op) == hist' = Append(hist, op) /\ last' = op
Same == UNCHANGED saves
Init == StoreInit /\ hist = <<>> /\ saves = 0 /\ last = <<>>
Known(o) == o \in DOMAIN objs

MCNew(o) == o \notin DOMAIN objs /\ New(o, Files[o]) /\ Do(<<"new", o, Files[o]>>) /\ Same
MCOpen(o, p, lz) == (Open(o, p, lz) \/ OpenUnknown(o, p)) /\ Do(<<"open", o, p, IF lz THEN 1 ELSE 0>>) /\ Same
MCLoad(o, lz) == Known(o) /\ (Load(o, lz) \/ LoadUnknown(o)) /\ Do(<<"load", o, IF lz THEN 1 ELSE 0>>) /\ Same
MCSave(o) == Known(o) /\ Do(<<"save", o>>) /\
    \/ Save(o, saves + 1) /\ saves < MaxSaves /\ saves' = saves + 1
    \/ SaveRefused(o, IF HasKey(o) THEN KeyOf(o) ELSE Find(ContentOf(o))) /\ Same
    \/ ~HasKey(o) /\ Keys(ContentOf(o)) = {} /\ SaveLazyRefused(o) /\ Same
    \/ ~Savable(ContentOf(o)) /\ SaveFails(o) /\ Same
MCSaveFault(o) == Known(o) /\ CanSave(o) /\ SaveFails(o) /\ Do(<<"savefault", o>>) /\ Same
MCDelete(o) == Known(o) /\ Do(<<"delete", o>>) /\ (Delete(o) \/ DeleteRefused(o) \/ DeleteGone(o, 0)) /\ Same
MCDeleteFault(o) == Known(o) /\ KeyOf(o) \in DOMAIN stored /\ DeleteFails(o) /\ Do(<<"deletefault", o>>) /\ Same
MCSaveDies(c) == Unchanged /\ c \in {1, 2} /\ Do(<<"savedies", c>>) /\ Same
MCDeleteDies(p) == Unchanged /\ p \in DOMAIN stored /\ Do(<<"deletedies", p>>) /\ Same

Step ==
    \/ \E o \in 1..4 : MCNew(o)
    \/ \E o \in Openers, p \in KeyRange, lz \in BOOLEAN : MCOpen(o, p, lz)
    \/ \E o \in 1..6, lz \in BOOLEAN : MCLoad(o, lz)
    \/ \E o \in 1..6 : MCSave(o) \/ MCSaveFault(o) \/ MCDelete(o) \/ MCDeleteFault(o)
    \/ \E c \in {1, 2} : MCSaveDies(c)
    \/ \E p \in KeyRange : MCDeleteDies(p)
Export == PrintT(ToJson([hist |-> hist']))
Next == Len(hist) < MaxLen /\ Step /\ Export
Spec == Init /\ [][Next]_vars
=============================================================================
