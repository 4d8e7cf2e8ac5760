----------------------------- MODULE MC_Objects -----------------------------
(* all histories of three objects, two contents (content 3 is refused) and   *)
(* three kinds of options; Export prints a history for every transition      *)
EXTENDS ULogObjects, Json, IOUtils
VARIABLES hist
vars == <<objs, spoilt, disk, hist>>
MaxLen == atoi(IOEnv.MAXLEN)
Objects == 1..2
Bit(b) == IF b THEN 1 ELSE 0
StateView == <<objs, spoilt, disk, Len(hist)>>
Do(op) == hist' = Append(hist, op) /\ PrintT(ToJson([hist |-> hist']))
Init == ObjectsInit /\ hist = <<>>
Next == Len(hist) < MaxLen /\ \E k \in Objects :
    \/ \E f \in 1..2, o \in 1..3, p \in BOOLEAN : Load(k, f, o, p) /\ Do(<<"load", k, f, o, Bit(p)>>)
    \/ \E p \in BOOLEAN : LoadRefused(k, 3, 1, p) /\ Do(<<"load", k, 3, 1, Bit(p)>>)
    \/ \E what \in {"lookup", "unknown", "query"} : Use(k) /\ Do(<<what, k>>)
    \/ Write(k) /\ Do(<<"write", k>>)
    \/ k \notin spoilt /\ Spoil(k) /\ Do(<<"spoil", k>>)
    \/ Drop(k) /\ Do(<<"drop", k>>)
Spec == Init /\ [][Next]_vars
TypeOK == spoilt \subseteq DOMAIN objs /\ \A k \in DOMAIN objs : objs[k][1] \in 1..2
=============================================================================
