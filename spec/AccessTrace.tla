----------------------------- MODULE AccessTrace -----------------------------
(***************************************************************************)
(* Validation of recorded accesses against ULogAccess.  An event has       *)
(*   op, o, d, lazy, caching    the operation and its arguments            *)
(*   outcome                    "ok" or the exception                      *)
(*   entry    1 if the returned object is the entry of the dataset list    *)
(*   fresh    1 if it is an object never returned or listed before         *)
(*   data     samples of the returned dataset: "all", "none", "other"      *)
(*   meta     1 if the metadata equals that of a full load                 *)
(*   list     for every entry of the list: <<dataset number, samples>>     *)
(*   written  1 if the written bytes are those of a full load              *)
(***************************************************************************)
EXTENDS ULogAccess, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ei, stuck
vars == <<acc, n, ci, ei, stuck>>
Case == Cases[ci]
More == ei <= Len(Case.events) /\ ~stuck
E == Case.events[ei]
Init == AccessInit /\ ci \in 1..Len(Cases) /\ n = Case.n /\ ei = 1 /\ stuck = FALSE

Ok == E.outcome = "ok"
Lz == E.lazy = 1
Listed == E.o \in DOMAIN acc' => /\ E.meta = 1
    /\ Len(E.list) = Case.n
    /\ \A i \in 1..Case.n : E.list[i] = <<i, IF i \in acc'[E.o].have THEN "all" ELSE "none">>
Explain(A) == A /\ Listed /\ ei' = ei + 1 /\ UNCHANGED <<ci, stuck>>
Entry == E.entry = 1
All == E.data = "all"
DataKnown == E.data \in {"all", "none"}

DoConstruct == E.op = "construct" /\ Ok /\ Explain(Construct(E.o, Lz))
DoLoad == E.op = "load" /\ Ok /\ Explain(Reload(E.o, Lz))
DoGet == E.op = "get" /\
    \/ Ok /\ E.caching = 1 /\ DataKnown /\ Explain(GetCached(E.o, E.d, Lz, Entry, All))
    \/ Ok /\ E.caching = 0 /\ DataKnown /\ E.fresh = 1 /\ Explain(GetCopy(E.o, E.d, Lz, Entry, All))
    \/ E.outcome = "KeyError" /\ Explain(GetUnknown(E.o, E.d))
DoWrite == E.op = "write" /\
    \/ Ok /\ E.written = 1 /\ Explain(WriteOk(E.o))
    \/ E.outcome = "ValueError" /\ E.written = 0 /\ Explain(WriteRefused(E.o))
DoRefused == Explain(ConstructRefused(E.op, E.outcome))
Explained == DoRefused \/ DoConstruct \/ DoLoad \/ DoGet \/ DoWrite
Unexplained == stuck' = TRUE /\ UNCHANGED <<acc, n, ci, ei>>
Next == More /\ (Explained \/ (~ENABLED Explained /\ Unexplained))
Spec == Init /\ [][Next]_vars
Describe == "event " \o ToString(ei) \o ": " \o ToString(E) \o " is not explained by any transition"
Report == ~More => PrintT(ToJson([case |-> ci, unspec |-> FALSE, failed |-> IF stuck THEN {Describe} ELSE {}]))
=============================================================================
