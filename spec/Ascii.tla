------------------------------- MODULE Ascii -------------------------------
(* Conversion of TLA+ string literals to byte sequences. *)
EXTENDS Integers, Sequences

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
              31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]
S(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
=============================================================================
