---------------------------- MODULE ObjectsTrace ----------------------------
(***************************************************************************)
(* Validation of recorded histories of log objects (C34).  A case has      *)
(*   files, options   the contents and the options of the loads            *)
(*   shown            the distinct observations that were made             *)
(*   events           op, k, f, o, path, outcome, and                      *)
(*     views   afterwards, for every living object that is not spoilt:     *)
(*             <<object, observation>>                                     *)
(*     name, multi, found   a lookup: what was looked for, the position of *)
(*             the result in the list of datasets (0: none)                *)
(*     bytes   number of what was written or answered (the same number     *)
(*             means the same bytes, or the same exception)                *)
(* What the objects have to show comes from the bytes of the file by the   *)
(* reader specification.                                                   *)
(***************************************************************************)
EXTENDS ULogObs, ULogObjects, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ei, logs, right, seen, stuck
vars == <<objs, spoilt, disk, ci, ei, logs, right, seen, stuck>>
Case == Cases[ci]
E == Case.events[ei]
Loads == (DOMAIN Case.files) \X (DOMAIN Case.options)
OptionsOf(ld) == [all |-> ld.all = 1, names |-> RangeOf(ld.names), strict |-> FALSE, header |-> ld.header = 1]

Init == /\ ci \in 1..Len(Cases) /\ ei = 0 /\ ObjectsInit /\ seen = <<>> /\ stuck = FALSE
        /\ logs = <<>> /\ right = {}
(* what every load has to show, and which of the observations show just that *)
Prepare ==
    /\ ei = 0
    /\ logs' = [l \in Loads |-> Run(Case.files[l[1]], OptionsOf(Case.options[l[2]]))]
    /\ right' = {<<l, s>> \in Loads \X DOMAIN Case.shown :
                   LET obs == Case.shown[s] IN
                   /\ logs'[l].out = "ok" /\ logs'[l].kept = <<>>
                   /\ AllClauses(logs'[l].log, obs) \cup CorruptClause(logs'[l].log, obs) = {}}
    /\ ei' = 1 /\ UNCHANGED <<objs, spoilt, disk, ci, seen, stuck>>

More == ei > 0 /\ ei <= Len(Case.events) /\ ~stuck
Good == E.outcome = "ok"
Accepted(f, o) == logs[<<f, o>>].out = "ok"
ViewsRight ==
    /\ {E.views[i][1] : i \in DOMAIN E.views} = DOMAIN objs' \ spoilt'
    /\ \A i \in DOMAIN E.views : <<objs'[E.views[i][1]], E.views[i][2]>> \in right
Explain(A) == A /\ ViewsRight /\ ei' = ei + 1 /\ UNCHANGED <<ci, stuck, logs, right>>
(* the same question to an object of the same load has the same answer *)
SameAnswer(kind) ==
    LET key == <<kind, objs[E.k]>> IN
    /\ key \in DOMAIN seen => seen[key] = E.bytes
    /\ seen' = PutO(seen, key, E.bytes)
Position(name, multi, view) ==
    LET d == Case.shown[view].data IN
    IF \E i \in DOMAIN d : d[i].name = name /\ d[i].multi = multi
    THEN CHOOSE i \in DOMAIN d : d[i].name = name /\ d[i].multi = multi ELSE 0
ViewOf(k) == (CHOOSE i \in DOMAIN E.views : E.views[i][1] = k)
LookupErrors == {"KeyError", "IndexError", "ValueError"}

DoLoad == /\ E.op = "load" /\ UNCHANGED seen
          /\ IF Accepted(E.f, E.o) THEN Good /\ Explain(Load(E.k, E.f, E.o, E.path = 1))
             ELSE ~Good /\ E.outcome # "timeout" /\ Explain(LoadRefused(E.k, E.f, E.o, E.path = 1))
DoLookup == /\ E.op = "lookup" /\ UNCHANGED seen /\ Explain(Use(E.k))
            /\ E.found = Position(E.name, E.multi, E.views[ViewOf(E.k)][2])
            /\ IF E.found = 0 THEN E.outcome \in LookupErrors ELSE Good
DoQuery == E.op = "query" /\ Good /\ Alive(E.k) /\ SameAnswer("query") /\ Explain(Use(E.k))
DoWrite == E.op = "write" /\ E.outcome # "timeout" /\ Alive(E.k) /\ SameAnswer("write") /\ Explain(Write(E.k))
DoSpoil == E.op = "spoil" /\ UNCHANGED seen /\ Explain(Spoil(E.k))
DoDrop == E.op = "drop" /\ Good /\ UNCHANGED seen /\ Explain(Drop(E.k))
Explained == DoLoad \/ DoLookup \/ DoQuery \/ DoWrite \/ DoSpoil \/ DoDrop
Unexplained == stuck' = TRUE /\ UNCHANGED <<objs, spoilt, disk, ci, ei, logs, right, seen>>
Next == Prepare \/ (More /\ (Explained \/ (~ENABLED Explained /\ Unexplained)))
Spec == Init /\ [][Next]_vars

Open_ == \E l \in DOMAIN logs : logs[l].out = "unspec" \/ logs[l].kept # <<>>
Describe == "event " \o ToString(ei) \o ": " \o ToString([E EXCEPT !.bytes = 0]) \o " is not explained by any transition"
Report == ei > 0 /\ ~More => PrintT(ToJson([case |-> ci, unspec |-> Open_, failed |-> IF stuck THEN {Describe} ELSE {}]))
=============================================================================
