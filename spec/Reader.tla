------------------------------- MODULE Reader -------------------------------
(* The compact-protocol reader as a state machine: one operator per protocol read call.    *)
(*                                                                                         *)
(* State r = [pos, last, stk, pend, rem]:                                                  *)
(*   pos   bytes of the input consumed so far                                              *)
(*   last  id of the last field header read at this nesting level                          *)
(*   stk   the enclosing levels' ids, innermost last                                       *)
(*   pend  bool carried by the last bool field header and not yet read: 0 none 1 true 2 false *)
(*   rem   remaining budget, INF when unbounded                                            *)
(* Each operator maps (input, state, arguments) to a result [s, r, v]: status, new state,  *)
(* value.  A status other than OK ends the history; the state is then irrelevant.          *)
EXTENDS Wire

INF == -1

NewReader(limit) == [pos |-> 0, last |-> 0, stk |-> <<>>, pend |-> 0, rem |-> limit]

Res(s, r, v) == [s |-> s, r |-> r, v |-> v]
Bad(s, r) == [s |-> s, r |-> r, v |-> <<>>]

\* charge n units to the budget
Affordable(r, n) == r.rem = INF \/ r.rem >= n
Charge(r, n) == IF r.rem = INF THEN r ELSE [r EXCEPT !.rem = @ - n]

----------------------------------------------------------------------------
(* Primitive reads *)

RByte(inp, r) == IF r.pos < Len(inp) THEN Res(OK, [r EXCEPT !.pos = @ + 1], inp[r.pos + 1])
                 ELSE Bad(T_EOF, r)

\* length of the varint at offset p: 0 when the input ends inside it, -1 when it exceeds max bytes
RECURSIVE VarScan(_, _, _, _)
VarScan(inp, p, i, max) == IF p + i > Len(inp) THEN 0
                           ELSE IF i > max THEN -1
                           ELSE IF inp[p + i] < 128 THEN i
                           ELSE VarScan(inp, p, i + 1, max)

\* unsigned varint of a k-byte type, as a word
RVar(inp, r, k) == LET n == VarScan(inp, r.pos, 1, VarMax(k))
                   IN IF n = 0 THEN Bad(T_EOF, r)
                      ELSE IF n < 0 THEN Bad(T_UNKNOWN, r)
                      ELSE Res(OK, [r EXCEPT !.pos = @ + n], VarWord(SubSeq(inp, r.pos + 1, r.pos + n)))

RU32(inp, r) == LET x == RVar(inp, r, 4) IN IF x.s # OK THEN x ELSE Res(OK, x.r, ZExt(x.v, 4))

\* signed (zigzag) varint of a k-byte type
RInt(inp, r, k) == LET x == RVar(inp, r, k) IN IF x.s # OK THEN x ELSE Res(OK, x.r, SExt(UnZig(x.v), k))

RI8(inp, r) == LET x == RByte(inp, r) IN IF x.s # OK THEN x ELSE Res(OK, x.r, SExt(<<x.v>>, 1))
RI16(inp, r) == RInt(inp, r, 2)
RI32(inp, r) == RInt(inp, r, 4)
RI64(inp, r) == RInt(inp, r, 8)

RDouble(inp, r) == IF r.pos + 8 <= Len(inp)
                   THEN Res(OK, [r EXCEPT !.pos = @ + 8], SubSeq(inp, r.pos + 1, r.pos + 8))
                   ELSE Bad(T_EOF, r)

RBool(inp, r) == IF r.pend # 0 THEN Res(OK, [r EXCEPT !.pend = 0], IF r.pend = 1 THEN 1 ELSE 0)
                 ELSE LET x == RByte(inp, r)
                      IN IF x.s # OK THEN x
                         ELSE IF x.v = 1 THEN Res(OK, x.r, 1)
                         ELSE IF x.v = 2 THEN Res(OK, x.r, 0)
                         ELSE Bad(P_INVALID, r)

\* the length is charged before anything is allocated or read
RBytes(inp, r) == LET x == RU32(inp, r)
                      n == USize(x.v)
                  IN IF x.s # OK THEN x
                     ELSE IF ~Affordable(x.r, n) THEN Bad(P_SIZE, r)
                     ELSE IF x.r.pos + n <= Len(inp)
                          THEN Res(OK, [Charge(x.r, n) EXCEPT !.pos = @ + n], SubSeq(inp, x.r.pos + 1, x.r.pos + n))
                     ELSE IF n = HUGE THEN Bad(ANYERR, r)
                     ELSE Bad(T_EOF, r)

RString(inp, r) == LET x == RBytes(inp, r)
                   IN IF x.s # OK THEN x
                      ELSE IF ValidUtf8(x.v) THEN x
                      ELSE Bad(P_INVALID, r)

----------------------------------------------------------------------------
(* Structure *)

RStructBegin(inp, r) == IF ~Affordable(r, 2) THEN Bad(P_SIZE, r)
                        ELSE Res(OK, [Charge(r, 2) EXCEPT !.stk = Append(@, r.last), !.last = 0], <<>>)

RStructEnd(inp, r) == Res(OK, [r EXCEPT !.last = r.stk[Len(r.stk)], !.stk = SubSeq(@, 1, Len(@) - 1)], <<>>)

\* value <<type code, id>>, <<0, 0>> for the end of the struct (whatever the delta nibble says)
RFieldBegin(inp, r) ==
  LET x == RByte(inp, r)
      t == x.v % 16
      d == x.v \div 16
      y == IF t \in {1, 2} THEN [x.r EXCEPT !.pend = t] ELSE x.r
  IN IF x.s # OK THEN x
     ELSE IF ~FieldCodeOK(t) THEN Bad(P_INVALID, r)
     ELSE IF t = 0 THEN Res(OK, x.r, <<0, 0>>)
     ELSE IF d # 0 THEN IF r.last + d > 32767 THEN Bad(P_DEPTH, r)
                        ELSE Res(OK, [y EXCEPT !.last = @ + d], <<TypeOfCode(t), r.last + d>>)
     ELSE LET z == RI16(inp, y)
          IN IF z.s # OK THEN z
             ELSE Res(OK, [z.r EXCEPT !.last = Int16(z.v)], <<TypeOfCode(t), Int16(z.v)>>)

\* value <<element type code, size word (4 bytes)>>
RListBegin(inp, r) ==
  LET x == RByte(inp, r)
      t == x.v % 16
      c == x.v \div 16
      y == IF c = 15 THEN RU32(inp, x.r) ELSE Res(OK, x.r, W(c))
      n == USize(y.v)
  IN IF x.s # OK THEN x
     ELSE IF ~ElemCodeOK(t) THEN Bad(P_INVALID, r)
     ELSE IF y.s # OK THEN y
     ELSE IF r.rem # INF /\ n > r.rem \div 8 THEN Bad(P_SIZE, r)
     ELSE Res(OK, Charge(y.r, 8 * n), <<t>> \o SubSeq(y.v, 1, 4))

\* value <<key type code, value type code, size word>>; type codes -1 when the map is empty
RMapBegin(inp, r) ==
  LET x == RU32(inp, r)
      n == USize(x.v)
      y == RByte(inp, x.r)
      k == y.v \div 16
      t == y.v % 16
  IN IF x.s # OK THEN x
     ELSE IF n = 0 THEN Res(OK, x.r, <<-1, -1, 0, 0, 0, 0>>)
     ELSE IF y.s # OK THEN y
     ELSE IF ~ElemCodeOK(k) \/ ~ElemCodeOK(t) THEN Bad(P_INVALID, r)
     ELSE IF r.rem # INF /\ n > r.rem \div 8 THEN Bad(P_SIZE, r)
     ELSE Res(OK, Charge(y.r, 8 * n), <<k, t>> \o SubSeq(x.v, 1, 4))

\* value <<message type, sequence number (4 bytes), name bytes ...>>
RMessageBegin(inp, r) ==
  LET a == RByte(inp, r)
      b == RByte(inp, a.r)
      t == b.v \div 32
      c == RU32(inp, b.r)
      d == RString(inp, c.r)
  IN IF a.s # OK THEN a
     ELSE IF a.v # 130 THEN Bad(P_VERSION, r)
     ELSE IF b.s # OK THEN b
     ELSE IF b.v % 32 # 1 THEN Bad(P_VERSION, r)
     ELSE IF t \notin 1..4 THEN Bad(P_INVALID, r)
     ELSE IF c.s # OK THEN c
     ELSE IF d.s # OK THEN d
     ELSE Res(OK, [d.r EXCEPT !.last = 0], <<t>> \o SubSeq(c.v, 1, 4) \o d.v)
=============================================================================
