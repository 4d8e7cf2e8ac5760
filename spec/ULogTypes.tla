----------------------------- MODULE ULogTypes -----------------------------
(* Constants of the ULog file format. *)
EXTENDS Bytes, Ascii

Magic == <<85, 76, 111, 103, 1, 18, 53>>
SyncBytes == <<47, 115, 19, 32, 37, 12, 187, 18>>

T_int8 == S("int8_t")     T_uint8 == S("uint8_t")
T_int16 == S("int16_t")   T_uint16 == S("uint16_t")
T_int32 == S("int32_t")   T_uint32 == S("uint32_t")
T_int64 == S("int64_t")   T_uint64 == S("uint64_t")
T_float == S("float")     T_double == S("double")
T_bool == S("bool")       T_char == S("char")
CharArrayPrefix == S("char[")
TimestampName == S("timestamp")
PaddingPrefix == S("_padding")

SizeOf == T_int8 :> 1 @@ T_uint8 :> 1 @@ T_int16 :> 2 @@ T_uint16 :> 2
          @@ T_int32 :> 4 @@ T_uint32 :> 4 @@ T_int64 :> 8 @@ T_uint64 :> 8
          @@ T_float :> 4 @@ T_double :> 8 @@ T_bool :> 1 @@ T_char :> 1
BasicTypes == DOMAIN SizeOf
SignedTypes == {T_int8, T_int16, T_int32, T_int64}
UnsignedTypes == {T_uint8, T_uint16, T_uint32, T_uint64}
(* kind of the elements of a loaded column: signed, unsigned, floating point *)
ColKind(t) == CASE t \in SignedTypes \cup {T_bool, T_char} -> "i"
                [] t \in UnsignedTypes -> "u"
                [] OTHER -> "f"

(* message types *)
MF == 70  MI == 73  MM == 77  MP == 80  MQ == 81  MA == 65  MR == 82
MD == 68  MS == 83  MO == 79  ML == 76  MC == 67  MB == 66
EndsDefinitions == {MA, ML, MC}
DefinitionTypes == {MI, MM, MF, MP, MQ, MB} \cup EndsDefinitions
DataTypes == {MI, MM, MP, MQ, MA, ML, MC, MD, MO, MS}

TheEmptyFcn == [x \in {} |-> x]
=============================================================================
