----------------------------- MODULE ULogAccess -----------------------------
(***************************************************************************)
(* Access to one stored log through log objects.  An object knows all      *)
(* metadata and the list of datasets; `have` are the datasets whose        *)
(* samples it holds.  Datasets are numbered 1..N in their order; other     *)
(* numbers are unknown.  `gen` counts the loads of an object: the entries  *)
(* of the list are the same objects from one load to the next.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES acc,      \* object -> [mode: "lazy" | "full", have: set of datasets, gen]
          n         \* number of datasets of the log
avars == <<acc, n>>
Datasets == 1..n

AccessInit == acc = [x \in {} |-> 0]
Known(o) == o \in DOMAIN acc
PutA(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Construct(o, lz) == UNCHANGED n /\ acc' = PutA(acc, o, [mode |-> IF lz THEN "lazy" ELSE "full",
                                        have |-> IF lz THEN {} ELSE Datasets, gen |-> IF Known(o) THEN acc[o].gen + 1 ELSE 1])
(* an object is made of a stored log or of a file: neither nothing nor both nor an unknown key *)
Refusals == [neither |-> "ValueError", both |-> "ValueError", nokey |-> "KeyError"]
ConstructRefused(why, outcome) == why \in DOMAIN Refusals /\ outcome = Refusals[why] /\ UNCHANGED avars
Reload(o, lz) == Known(o) /\ UNCHANGED n /\ acc' = [acc EXCEPT ![o] = [mode |-> IF lz THEN "lazy" ELSE "full",
                                        have |-> IF lz THEN {} ELSE Datasets, gen |-> @.gen + 1]]
(* what a fetch returns: the entry itself or a copy, with or without samples *)
GetCached(o, d, lz, entry, complete) ==
    /\ Known(o) /\ d \in Datasets
    /\ entry
    /\ UNCHANGED n /\ acc' = [acc EXCEPT ![o].have = IF lz THEN @ ELSE @ \cup {d}]
    /\ complete = (d \in acc'[o].have)
GetCopy(o, d, lz, entry, complete) ==
    /\ Known(o) /\ d \in Datasets
    /\ ~entry
    /\ complete = ~lz
    /\ UNCHANGED avars
GetUnknown(o, d) == Known(o) /\ d \notin Datasets /\ UNCHANGED avars
WriteOk(o) == Known(o) /\ acc[o].mode = "full" /\ UNCHANGED avars
WriteRefused(o) == Known(o) /\ acc[o].mode = "lazy" /\ UNCHANGED avars

FullHasAll == \A o \in DOMAIN acc : acc[o].mode = "full" => acc[o].have = Datasets
OnlyKnown == \A o \in DOMAIN acc : acc[o].have \subseteq Datasets
(* samples are only dropped by a reload *)
Keeps == [][\A o \in DOMAIN acc : acc'[o].gen = acc[o].gen => acc[o].have \subseteq acc'[o].have]_avars
=============================================================================
