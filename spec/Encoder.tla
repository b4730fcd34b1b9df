------------------------------- MODULE Encoder -------------------------------
(* Parquet metadata values and their encodings.                                            *)
(*                                                                                         *)
(* Abstract values, by schema type:                                                        *)
(*   bool 0 | 1;  integers and enums: a word;  double: 8 bytes;                            *)
(*   string, binary: <<n, b, lit>> = n bytes b, or the bytes lit when n = 0;               *)
(*   list: <<m, es>> = es, or m copies of es[1] when m > 0;                                *)
(*   struct, union: sequence of <<id, value>> in any order, ids may repeat.                *)
(* An extra field unknown to the schema is <<id, -code, bytes>>: wire type code and the    *)
(* raw encoding of its content; with code 0 the bytes include the header.                  *)
(* To describe malformed encodings, any scalar, string or list may be given as             *)
(* <<RAW, bytes>>, and a bool list element as 10 + the byte to write.                      *)
EXTENDS Writer, Schema

RAW == -77
IsRaw(t, v) == t # 1 /\ ~IsStruct(t) /\ Len(v) = 2 /\ v[1] = RAW

StrLen(v) == IF v[1] > 0 THEN v[1] ELSE Len(v[3])
StrBytes(v) == IF v[1] > 0 THEN <<Run(v[1], v[2])>> ELSE v[3]
ListLen(v) == IF v[1] > 0 THEN v[1] ELSE Len(v[2])

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN <<>>
                ELSE IF n = 1 THEN s
                ELSE LET h == Repeat(s, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o s

RECURSIVE WVal(_, _, _), WFields(_, _, _, _), WElems(_, _, _, _)
WVal(w, t, v) ==
  CASE t = 1 -> IF v >= 10 THEN WByte(w, v - 10) ELSE WBool(w, v)
    [] IsRaw(t, v) -> Put1(w, v[2])
    [] t = 3 -> WI8(w, v)
    [] t = 4 -> WI16(w, v)
    [] t = 5 \/ IsEnum(t) -> WI32(w, v)
    [] t = 6 -> WI64(w, v)
    [] t = 7 -> WDouble(w, v)
    [] t \in {8, 9} -> WBytes(w, StrLen(v), StrBytes(v))
    [] IsList(t) -> LET h == WListBegin(w, WireOf(ElemOf(t)), W(ListLen(v)))
                    IN IF v[1] = 0 THEN WElems(h, ElemOf(t), v[2], 1)
                       ELSE LET e == WVal([h EXCEPT !.out = <<>>], ElemOf(t), v[2][1]).out
                            IN IF Len(e) = 1 THEN Put1(h, <<Run(v[1], e[1])>>) ELSE Put1(h, Repeat(e, v[1]))
    [] IsStruct(t) -> WStructEnd(WFieldStop(WFields(WStructBegin(w), t, v, 1)))
WElems(w, t, es, i) == IF i > Len(es) THEN w ELSE WElems(WVal(w, t, es[i]), t, es, i + 1)
WFields(w, t, fs, i) ==
  IF i > Len(fs) THEN w
  ELSE LET f == fs[i]
       IN IF Len(f) = 3 THEN WFields(Put1(IF f[2] = 0 THEN w ELSE Header(w, -f[2], f[1]), f[3]), t, fs, i + 1)
          ELSE LET ft == FieldsOf(t)[FieldIx(t, f[1])][2]
               IN WFields(WVal(WFieldBegin(w, WireOf(ft), f[1]), ft, f[2]), t, fs, i + 1)

Encode(t, v, st) == WVal(NewWriter(st), t, v).out

----------------------------------------------------------------------------
(* The value an encoding denotes, as a flat sequence (module Decoder), with two compact    *)
(* forms for large contents: 7 n b = n bytes b, 8 n <element> = n equal elements           *)

\* fields of a struct as denoted: unknown ones dropped, last occurrence wins, ascending ids
KnownIds(fs) == {fs[i][1] : i \in {j \in DOMAIN fs : Len(fs[j]) = 2}}
LastOf(fs, id) == LET S == {j \in DOMAIN fs : Len(fs[j]) = 2 /\ fs[j][1] = id}
                  IN fs[CHOOSE j \in S : \A k \in S : k <= j][2]
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})

RECURSIVE Flat(_, _), FlatFields(_, _, _, _), FlatElems(_, _, _)
Flat(t, v) ==
  CASE t = 1 -> <<1, v>>
    [] t \in {3, 4, 5, 6} \/ IsEnum(t) -> <<2>> \o v
    [] t = 7 -> <<3>> \o v
    [] t \in {8, 9} -> IF v[1] > 0 THEN <<7, v[1], v[2]>> ELSE <<4, Len(v[3])>> \o v[3]
    [] IsList(t) -> IF v[1] > 0 THEN <<8, v[1]>> \o Flat(ElemOf(t), v[2][1])
                    ELSE <<5, Len(v[2])>> \o FlatElems(ElemOf(t), v[2], 1)
    [] IsStruct(t) -> LET ids == Ascending(KnownIds(v)) IN <<6, Len(ids)>> \o FlatFields(t, v, ids, 1)
FlatElems(t, es, i) == IF i > Len(es) THEN <<>> ELSE Flat(t, es[i]) \o FlatElems(t, es, i + 1)
FlatFields(t, v, ids, i) ==
  IF i > Len(ids) THEN <<>>
  ELSE <<ids[i]>> \o Flat(FieldsOf(t)[FieldIx(t, ids[i])][2], LastOf(v, ids[i])) \o FlatFields(t, v, ids, i + 1)

----------------------------------------------------------------------------
(* What reading the value charges to the budget, by structure (unknown fields excluded)    *)

RECURSIVE Cost(_, _), CostFields(_, _, _), CostElems(_, _, _)
Cost(t, v) ==
  CASE t \in {8, 9} -> StrLen(v)
    [] IsList(t) -> 8 * ListLen(v) + (IF v[1] > 0 THEN v[1] * Cost(ElemOf(t), v[2][1]) ELSE CostElems(ElemOf(t), v[2], 1))
    [] IsStruct(t) -> 2 + CostFields(t, v, 1)
    [] OTHER -> 0
CostElems(t, es, i) == IF i > Len(es) THEN 0 ELSE Cost(t, es[i]) + CostElems(t, es, i + 1)
CostFields(t, fs, i) ==
  IF i > Len(fs) THEN 0
  ELSE (IF Len(fs[i]) = 3 THEN 0 ELSE Cost(FieldsOf(t)[FieldIx(t, fs[i][1])][2], fs[i][2])) + CostFields(t, fs, i + 1)
=============================================================================
