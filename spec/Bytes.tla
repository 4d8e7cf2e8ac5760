------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte sequences: the only data type of the ULog specifications.          *)
(*                                                                         *)
(* Files, texts and values are sequences over 0..255.  Numbers are never   *)
(* interpreted beyond what TLC's 32 bit integers allow: a 64 bit timestamp *)
(* is a sequence of 8 bytes (little endian), compared from its most        *)
(* significant byte; floats stay bit patterns.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* Python-style slice s[a:b] with 0-based, clipped bounds *)
Slice(s, a, b) == LET hi == Min2(b, Len(s)) IN IF a >= hi THEN <<>> ELSE SubSeq(s, a + 1, hi)
From(s, a) == Slice(s, a, Len(s))

RangeOf(s) == {s[i] : i \in DOMAIN s}

(* little endian numbers *)
U8(s, o) == s[o + 1]
U16(s, o) == s[o + 1] + 256 * s[o + 2]
Enc16(n) == <<n % 256, n \div 256>>

(* 8 byte little endian numbers, as byte sequences *)
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i = 0 THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i]
                   ELSE LtFrom(a, b, i - 1)
Lt64(a, b) == LtFrom(a, b, 8)
Le64(a, b) == a = b \/ Lt64(a, b)
Max64(a, b) == IF Lt64(a, b) THEN b ELSE a
Zero64 == <<0, 0, 0, 0, 0, 0, 0, 0>>
(* the value of an 8 byte number, or `big` if it is not below 2^24 *)
Small64(a, big) == IF \A i \in 4..8 : a[i] = 0 THEN a[1] + 256 * a[2] + 65536 * a[3] ELSE big

RECURSIVE AddCarry(_, _, _, _)
AddCarry(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == a[i] + b[i] + c IN <<s % 256>> \o AddCarry(a, b, i + 1, s \div 256)
Add64(a, b) == AddCarry(a, b, 1, 0)
RECURSIVE SubBorrow(_, _, _, _)
SubBorrow(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == a[i] - b[i] - c IN
         IF s < 0 THEN <<s + 256>> \o SubBorrow(a, b, i + 1, 1)
         ELSE <<s>> \o SubBorrow(a, b, i + 1, 0)
Sub64(a, b) == SubBorrow(a, b, 1, 0)
RECURSIVE MulCarry(_, _, _, _)
MulCarry(a, k, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == a[i] * k + c IN <<s % 256>> \o MulCarry(a, k, i + 1, s \div 256)
(* 8 byte number times a small number (at most 2^22), modulo 2^64 *)
Mul64(a, k) == MulCarry(a, k, 1, 0)
RECURSIVE DivDown(_, _, _, _)
DivDown(a, k, i, r) ==
    IF i = 0 THEN <<>>
    ELSE LET v == r * 256 + a[i] IN Append(DivDown(a, k, i - 1, v % k), v \div k)
(* 8 byte number divided by a small number (at most 2^22) *)
Div64(a, k) == DivDown(a, k, 8, 0)
(* a small natural number as 8 bytes *)
RECURSIVE EncN(_, _)
EncN(n, w) == IF w = 0 THEN <<>> ELSE <<n % 256>> \o EncN(n \div 256, w - 1)
Enc64(n) == EncN(n, 8)

(* lexicographic order of texts (UTF-8 order is code point order) *)
RECURSIVE LexLtFrom(_, _, _)
LexLtFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LexLtFrom(a, b, i + 1)
LexLt(a, b) == LexLtFrom(a, b, 1)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

(* first position (0-based) of byte c at or after o, or Len(s) *)
RECURSIVE IndexByte(_, _, _)
IndexByte(s, c, o) ==
    IF o >= Len(s) THEN Len(s)
    ELSE IF s[o + 1] = c THEN o
    ELSE IndexByte(s, c, o + 1)

(* split at every byte c, like Python's str.split(c) *)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, c, o) ==
    LET e == IndexByte(s, c, o)
    IN IF e = Len(s) THEN <<Slice(s, o, e)>>
       ELSE <<Slice(s, o, e)>> \o SplitFrom(s, c, e + 1)
Split(s, c) == SplitFrom(s, c, 0)

(* first position (0-based) of p in s at or after o, or -1 *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, o) ==
    IF o + Len(p) > Len(s) THEN -1
    ELSE IF s[o + 1] = p[1] /\ SubSeq(s, o + 1, o + Len(p)) = p THEN o
    ELSE FindFrom(s, p, o + 1)

IsDigits(s) == Len(s) > 0 /\ Len(s) <= 5 /\ \A i \in DOMAIN s : s[i] \in 48..57
ParseInt(s) == FoldLeft(LAMBDA a, d : a * 10 + (d - 48), 0, s)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))

RECURSIVE Dec64From(_)
Dec64From(a) == IF \A i \in 1..8 : a[i] = 0 THEN <<>>
                ELSE LET q == Div64(a, 10) IN
                     Append(Dec64From(q), 48 + Sub64(a, Mul64(q, 10))[1])
(* decimal digits of an 8 byte number *)
Dec64(a) == IF a = Zero64 THEN <<48>> ELSE Dec64From(a)

Repeat(x, n) == [i \in 1..n |-> x]

(***************************************************************************)
(* UTF-8 (Unicode 15, table 3-7).  Clean drops every byte that is not part *)
(* of a well-formed sequence, which is what decoding with errors='ignore'  *)
(* followed by encoding gives.                                             *)
(***************************************************************************)
Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191
(* length of the well-formed sequence starting at 1-based index i, or 0 *)
SeqLen(s, i) ==
    LET b == s[i] IN
    CASE b \in 0..127 -> 1
      [] b \in 194..223 -> IF Cont(s, i + 1) THEN 2 ELSE 0
      [] b \in 224..239 ->
            IF Cont(s, i + 1) /\ Cont(s, i + 2)
               /\ (b = 224 => s[i + 1] >= 160) /\ (b = 237 => s[i + 1] <= 159)
            THEN 3 ELSE 0
      [] b \in 240..244 ->
            IF Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
               /\ (b = 240 => s[i + 1] >= 144) /\ (b = 244 => s[i + 1] <= 143)
            THEN 4 ELSE 0
      [] OTHER -> 0

IsAscii(s) == \A i \in DOMAIN s : s[i] < 128

RECURSIVE ValidFrom(_, _)
ValidFrom(s, i) == IF i > Len(s) THEN TRUE
                   ELSE LET n == SeqLen(s, i) IN IF n = 0 THEN FALSE ELSE ValidFrom(s, i + n)
ValidUtf8(s) == IsAscii(s) \/ ValidFrom(s, 1)

RECURSIVE CleanFrom(_, _)
CleanFrom(s, i) == IF i > Len(s) THEN <<>>
                   ELSE LET n == SeqLen(s, i)
                        IN IF n = 0 THEN CleanFrom(s, i + 1)
                           ELSE SubSeq(s, i, i + n - 1) \o CleanFrom(s, i + n)
Clean(s) == IF IsAscii(s) THEN s ELSE CleanFrom(s, 1)

(* ASCII literals used by the format *)
Space == 32
Colon == 58
Semicolon == 59
OpenB == 91
CloseB == 93
Dot == 46
=============================================================================
