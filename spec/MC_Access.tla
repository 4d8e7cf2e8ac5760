------------------------------ MODULE MC_Access ------------------------------
(* all access histories of two objects on a log with two datasets; Export   *)
(* prints a history for every transition of the state graph                 *)
EXTENDS ULogAccess, Json, IOUtils
VARIABLES hist
vars == <<acc, n, hist>>
MaxLen == atoi(IOEnv.MAXLEN)
Objects == {1, 2}
Bit(b) == IF b THEN 1 ELSE 0
StateView == <<[o \in DOMAIN acc |-> <<acc[o].mode, acc[o].have>>], Len(hist)>>
Do(op) == hist' = Append(hist, op) /\ PrintT(ToJson([hist |-> hist']))
Init == AccessInit /\ n = 2 /\ hist = <<>>
Next == Len(hist) < MaxLen /\ \E o \in Objects, lz \in BOOLEAN :
    \/ ~Known(o) /\ Construct(o, lz) /\ Do(<<"construct", o, Bit(lz)>>)
    \/ Reload(o, lz) /\ Do(<<"load", o, Bit(lz)>>)
    \/ \E d \in 1..3 : \/ \E c \in BOOLEAN : GetCached(o, d, lz, TRUE, c) /\ Do(<<"get", o, d, Bit(lz), 1>>)
                       \/ \E c \in BOOLEAN : GetCopy(o, d, lz, FALSE, c) /\ Do(<<"get", o, d, Bit(lz), 0>>)
                       \/ GetUnknown(o, d) /\ Do(<<"get", o, d, Bit(lz), Bit(lz)>>)
    \/ \E why \in DOMAIN Refusals : ConstructRefused(why, Refusals[why]) /\ Do(<<why, o, Bit(lz)>>)
    \/ (WriteOk(o) \/ WriteRefused(o)) /\ Do(<<"write", o>>)
Spec == Init /\ [][Next]_vars
=============================================================================
