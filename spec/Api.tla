-------------------------------- MODULE Api --------------------------------
(* The protocol API as a whole: one operation of either side as one action.               *)
(*                                                                                        *)
(* An operation is <<code, args>>; codes are shared with the harness.  WOp gives the       *)
(* writer's next state, ROp the reader's status, next state and result.                   *)
EXTENDS Encoder, Decoder

MSG_BEGIN == 1      \* write: type, 4 bytes of sequence number, name bytes; read result likewise
MSG_END == 2
STRUCT_BEGIN == 3
STRUCT_END == 4
FIELD_BEGIN == 5    \* wire type, id
FIELD_END == 6
FIELD_STOP == 7
BOOL == 8
I8 == 9
I16 == 10
I32 == 11
I64 == 12
DOUBLE == 13
TEXT == 14
BYTES == 15
LIST_BEGIN == 16    \* element type, 4 bytes of size
LIST_END == 17
SET_BEGIN == 18
SET_END == 19
MAP_BEGIN == 20     \* key type, value type (-1 when the map is empty), 4 bytes of size
MAP_END == 21
BYTE == 22
VAL == 23           \* a metadata value: schema type, flat value (write), result flat value (read)
SKIP == 25          \* wire type
SKIPD == 26         \* wire type, depth
READ_LIST == 27     \* schema type of the elements
SEEK == 28          \* from where (0 start, 1 here, 2 end, 3 rewind, 4 ask only), offset; read result: position
APPERR == 29        \* application error: kind, message bytes

Op(c, a) == <<c, a>>

----------------------------------------------------------------------------
(* Writing a metadata value given as a flat sequence (see module Decoder) from position i; *)
(* the result is <<writer, next position>>                                                 *)

RECURSIVE WFlat(_, _, _, _), WFlatFields(_, _, _, _, _), WFlatElems(_, _, _, _, _)
WFlat(w, t, f, i) ==
  CASE f[i] = 1 -> <<WBool(w, f[i + 1]), i + 2>>
    [] f[i] = 2 -> LET x == SubSeq(f, i + 1, i + 8)
                   IN <<CASE t = 3 -> WI8(w, x) [] t = 4 -> WI16(w, x) [] t = 6 -> WI64(w, x) [] OTHER -> WI32(w, x), i + 9>>
    [] f[i] = 3 -> <<WDouble(w, SubSeq(f, i + 1, i + 8)), i + 9>>
    [] f[i] = 4 -> <<WBytes(w, f[i + 1], SubSeq(f, i + 2, i + 1 + f[i + 1])), i + 2 + f[i + 1]>>
    [] f[i] = 7 -> <<WBytes(w, f[i + 1], <<Run(f[i + 1], f[i + 2])>>), i + 3>>
    [] f[i] = 5 -> WFlatElems(WListBegin(w, WireOf(ElemOf(t)), W(f[i + 1])), ElemOf(t), f, i + 2, f[i + 1])
    [] f[i] = 8 -> LET e == WFlat([w EXCEPT !.out = <<>>], ElemOf(t), f, i + 2)
                   IN <<Put1(WListBegin(w, WireOf(ElemOf(t)), W(f[i + 1])), Repeat(e[1].out, f[i + 1])), e[2]>>
    [] f[i] = 6 -> LET x == WFlatFields(WStructBegin(w), t, f, i + 2, f[i + 1])
                   IN <<WStructEnd(WFieldStop(x[1])), x[2]>>
WFlatFields(w, t, f, i, n) ==
  IF n = 0 THEN <<w, i>>
  ELSE LET ft == FieldsOf(t)[FieldIx(t, f[i])][2]
           x == WFlat(WFieldBegin(w, WireOf(ft), f[i]), ft, f, i + 1)
       IN WFlatFields(x[1], t, f, x[2], n - 1)
WFlatElems(w, t, f, i, n) ==
  IF n = 0 THEN <<w, i>>
  ELSE LET x == WFlat(w, t, f, i) IN WFlatElems(x[1], t, f, x[2], n - 1)

----------------------------------------------------------------------------
(* Application errors *)

Utf8Of == <<103, 101, 110, 101, 114, 97, 108, 32, 114, 101, 109, 111, 116, 101, 32, 101, 114, 114, 111, 114>>  \* "general remote error"

WAppErr(w, kind, msg) ==
  WStructEnd(WFieldStop(WI32(WFieldBegin(WBytes(WFieldBegin(WStructBegin(w), 8, 1), Len(msg), msg), 5, 2), W(kind))))

\* known kinds are 0..10; anything else reads as 0, unknown
AppKind(v) == IF \A i \in 2..8 : v[i] = 0 THEN IF v[1] <= 10 THEN v[1] ELSE 0 ELSE 0

RECURSIVE AppFields(_, _, _, _)
AppFields(inp, r, kind, msg) ==
  LET h == RFieldBegin(inp, r)
      m == RString(inp, h.r)
      k == RI32(inp, h.r)
      s == Skip(inp, h.r, h.v[1], MAXSKIP)
  IN IF h.s # OK THEN h
     ELSE IF h.v[1] = 0 THEN Res(OK, RStructEnd(inp, h.r).r, <<kind>> \o msg)
     ELSE IF h.v[2] = 1 THEN IF m.s # OK THEN m ELSE AppFields(inp, m.r, kind, m.v)
     ELSE IF h.v[2] = 2 THEN IF k.s # OK THEN k ELSE AppFields(inp, k.r, AppKind(k.v), msg)
     ELSE IF s.s # OK THEN Bad(s.s, r) ELSE AppFields(inp, s.r, kind, msg)
RAppErr(inp, r) == LET b == RStructBegin(inp, r) IN IF b.s # OK THEN b ELSE AppFields(inp, b.r, 0, Utf8Of)

----------------------------------------------------------------------------
(* The two sides *)

WOp(w, op) ==
  LET a == op[2]
  IN CASE op[1] = MSG_BEGIN -> LET name == SubSeq(a, 6, Len(a))
                               IN WMessageBegin(w, a[1], SubSeq(a, 2, 5) \o <<0, 0, 0, 0>>, BytesLen(name), name)
       [] op[1] = STRUCT_BEGIN -> WStructBegin(w)
       [] op[1] = STRUCT_END -> WStructEnd(w)
       [] op[1] = FIELD_BEGIN -> WFieldBegin(w, a[1], a[2])
       [] op[1] = FIELD_STOP -> WFieldStop(w)
       [] op[1] = BOOL -> WBool(w, a[1])
       [] op[1] = I8 -> WI8(w, a)
       [] op[1] = I16 -> WI16(w, a)
       [] op[1] = I32 -> WI32(w, a)
       [] op[1] = I64 -> WI64(w, a)
       [] op[1] = DOUBLE -> WDouble(w, a)
       [] op[1] \in {TEXT, BYTES} -> WBytes(w, BytesLen(a), a)
       [] op[1] \in {LIST_BEGIN, SET_BEGIN} -> WListBegin(w, a[1], SubSeq(a, 2, 5) \o <<0, 0, 0, 0>>)
       [] op[1] = MAP_BEGIN -> WMapBegin(w, a[1], a[2], SubSeq(a, 3, 6) \o <<0, 0, 0, 0>>)
       [] op[1] = BYTE -> WByte(w, a[1])
       [] op[1] = VAL -> WFlat(w, a[1], Tail(a), 1)[1]
       [] op[1] = APPERR -> WAppErr(w, a[1], Tail(a))
       [] OTHER -> w           \* the ends of messages, fields and collections emit nothing

OfCfg(c) == IF c.s # OK THEN Bad(c.s, c.r) ELSE Res(OK, c.r, c.v)
One1(x) == IF x.s # OK THEN x ELSE Res(OK, x.r, <<x.v>>)

\* the source moves, to anywhere from its start on; nothing else does
RSeek(inp, r, from, off) ==
  LET p == CASE from = 0 -> off [] from = 1 -> r.pos + off [] from = 2 -> Len(inp) + off [] from = 3 -> 0 [] from = 4 -> r.pos
  IN IF p < 0 THEN Bad(T_UNKNOWN, r) ELSE Res(OK, [r EXCEPT !.pos = p], W(p))

ROp(inp, r, op) ==
  LET a == op[2]
  IN CASE op[1] = MSG_BEGIN -> RMessageBegin(inp, r)
       [] op[1] = STRUCT_BEGIN -> RStructBegin(inp, r)
       [] op[1] = STRUCT_END -> RStructEnd(inp, r)
       [] op[1] = FIELD_BEGIN -> RFieldBegin(inp, r)
       [] op[1] = BOOL -> One1(RBool(inp, r))
       [] op[1] = I8 -> RI8(inp, r)
       [] op[1] = I16 -> RI16(inp, r)
       [] op[1] = I32 -> RI32(inp, r)
       [] op[1] = I64 -> RI64(inp, r)
       [] op[1] = DOUBLE -> RDouble(inp, r)
       [] op[1] = TEXT -> RString(inp, r)
       [] op[1] = BYTES -> RBytes(inp, r)
       [] op[1] \in {LIST_BEGIN, SET_BEGIN} -> RListBegin(inp, r)
       [] op[1] = MAP_BEGIN -> RMapBegin(inp, r)
       [] op[1] = BYTE -> One1(RByte(inp, r))
       [] op[1] = VAL -> OfCfg(Decode(inp, r, a[1]))
       [] op[1] = SKIP -> OfCfg(Skip(inp, r, a[1], MAXSKIP))
       [] op[1] = SKIPD -> OfCfg(Skip(inp, r, a[1], a[2]))
       [] op[1] = READ_LIST -> OfCfg(Decode(inp, r, 1000 + a[1]))
       [] op[1] = APPERR -> RAppErr(inp, r)
       [] op[1] = SEEK -> RSeek(inp, r, a[1], a[2])
       [] OTHER -> Res(OK, r, <<>>)

----------------------------------------------------------------------------
(* Values at the level of the protocol API, and the calls that write and read them:        *)
(*   <<1, b>> | <<3..6, word>> | <<7, 8 bytes>> | <<8, is string, bytes>>                   *)
(*   | <<9 or 10, element type, elements>> | <<11, key type, value type, pairs>>            *)
(*   | <<12, fields <<id, value>> >> | <<20, schema type, flat value>>                      *)
(*   | <<21, message type, sequence number, name, values>> (outermost only)                 *)
(*   | <<22, kind, text>> an application error                                              *)

WireT(v) == IF v[1] \in {20, 22} THEN 12 ELSE v[1]
Sz(n) == SubSeq(W(n), 1, 4)

RECURSIVE Calls(_, _), CallsOf(_, _), CallsPairs(_, _), CallsFields(_, _)
\* m: "w" write, "r" mirrored read, "l" the same but lists at once where there is a type for them,
\* "s" mirrored read that skips the fields of the outermost struct
\* the schema type of the elements of a list, 0 when there is none
ElemTy(v) == CASE v[2] \in {1, 3, 6} -> v[2]
               [] v[2] = 8 -> IF \A i \in 1..Len(v[3]) : v[3][i][2] = 1 THEN 9 ELSE 8
               [] v[2] = 12 /\ v[3] # <<>> -> IF v[3][1][1] = 20 /\ \A i \in 1..Len(v[3]) : v[3][i][2] = v[3][1][2] THEN v[3][1][2] ELSE 0
               [] OTHER -> 0
Calls(v, m) ==
  CASE v[1] = 1 -> <<Op(BOOL, IF m = "w" THEN <<v[2]>> ELSE <<>>)>>
    [] v[1] \in 3..6 -> <<Op(v[1] + 6, IF m = "w" THEN v[2] ELSE <<>>)>>
    [] v[1] = 7 -> <<Op(DOUBLE, IF m = "w" THEN v[2] ELSE <<>>)>>
    [] v[1] = 8 -> <<Op(IF v[2] = 1 THEN TEXT ELSE BYTES, IF m = "w" THEN v[3] ELSE <<>>)>>
    [] v[1] = 9 /\ m = "l" /\ ElemTy(v) # 0 -> <<Op(READ_LIST, <<ElemTy(v)>>)>>
    [] v[1] = 9 -> <<Op(LIST_BEGIN, IF m = "w" THEN <<v[2]>> \o Sz(Len(v[3])) ELSE <<>>)>> \o CallsOf(v[3], m) \o <<Op(LIST_END, <<>>)>>
    [] v[1] = 10 -> <<Op(SET_BEGIN, IF m = "w" THEN <<v[2]>> \o Sz(Len(v[3])) ELSE <<>>)>> \o CallsOf(v[3], m) \o <<Op(SET_END, <<>>)>>
    [] v[1] = 11 -> <<Op(MAP_BEGIN, IF m = "w" THEN <<v[2], v[3]>> \o Sz(Len(v[4])) ELSE <<>>)>> \o CallsPairs(v[4], m) \o <<Op(MAP_END, <<>>)>>
    [] v[1] = 12 -> <<Op(STRUCT_BEGIN, <<>>)>> \o CallsFields(v[2], m)
                    \o (IF m = "w" THEN <<Op(FIELD_STOP, <<>>)>> ELSE <<Op(FIELD_BEGIN, <<>>)>>) \o <<Op(STRUCT_END, <<>>)>>
    [] v[1] = 20 -> <<Op(VAL, IF m = "w" THEN <<v[2]>> \o v[3] ELSE <<v[2], 1>>)>>
    [] v[1] = 21 -> <<Op(MSG_BEGIN, IF m = "w" THEN <<v[2]>> \o v[3] \o v[4] ELSE <<>>)>> \o CallsOf(v[5], m) \o <<Op(MSG_END, <<>>)>>
    [] v[1] = 22 -> <<Op(APPERR, IF m = "w" THEN <<v[2]>> \o v[3] ELSE <<>>)>>
CallsOf(es, m) == Concat([k \in 1..Len(es) |-> Calls(es[k], m)])
CallsPairs(ps, m) == Concat([k \in 1..Len(ps) |-> Calls(ps[k][1], m) \o Calls(ps[k][2], m)])
CallsFields(fs, m) ==
  Concat([k \in 1..Len(fs) |-> <<Op(FIELD_BEGIN, IF m = "w" THEN <<WireT(fs[k][2]), fs[k][1]>> ELSE <<>>)>>
                               \o (IF m = "s" THEN <<Op(SKIP, <<WireT(fs[k][2])>>)>> ELSE Calls(fs[k][2], m))
                               \o <<Op(FIELD_END, <<>>)>>])

\* what a mirrored read must return for a write operation
Mirror(op) ==
  CASE op[1] = FIELD_STOP -> <<0, 0>>
    [] op[1] = MAP_BEGIN -> IF SubSeq(op[2], 3, 6) = <<0, 0, 0, 0>> THEN <<-1, -1, 0, 0, 0, 0>> ELSE op[2]
    [] op[1] = VAL -> Tail(op[2])
    [] OTHER -> op[2]
=============================================================================
