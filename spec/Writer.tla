------------------------------- MODULE Writer -------------------------------
(* The compact-protocol writer as a state machine: one operator per protocol write call.   *)
(*                                                                                         *)
(* State w = [out, last, stk, pend, st]:                                                   *)
(*   out   bytes handed to the transport so far                                            *)
(*   last  id of the last field header written at this nesting level                       *)
(*   stk   the enclosing levels' ids                                                       *)
(*   pend  id of a bool field whose header waits for its value, or NOPEND                  *)
(*   st    encoding style [long, pad, llist]: CANON is what this crate writes; the others   *)
(*         are further encodings the protocol permits and every reader must accept:        *)
(*         long = 1 absolute field ids everywhere, llist = 1 explicit list sizes           *)
(*         everywhere, pad = redundant continuation bytes in varints (within the maximum)  *)
EXTENDS Wire

NOPEND == 100000
CANON == [long |-> 0, pad |-> 0, llist |-> 0]

NewWriter(st) == [out |-> <<>>, last |-> 0, stk |-> <<>>, pend |-> NOPEND, st |-> st]

Put1(w, s) == [w EXCEPT !.out = @ \o s]

\* padding of a varint of n minimal bytes in a k-byte type
PadFor(w, n, k) == Max(0, Min(w.st.pad, VarMax(k) - n))
WU(w, u, k) == Put1(w, UVarP(u, PadFor(w, VarLen(u), k)))
WS(w, v, k) == WU(w, Zig(v), k)

WByte(w, b) == Put1(w, <<b>>)
WI8(w, v) == Put1(w, <<v[1]>>)
WI16(w, v) == WS(w, v, 2)
WI32(w, v) == WS(w, v, 4)
WI64(w, v) == WS(w, v, 8)
WDouble(w, b) == Put1(w, b)
\* n: number of bytes, s: the byte string
WBytes(w, n, s) == Put1(WU(w, W(n), 4), s)

Header(w, code, id) ==
  LET d == id - w.last
  IN [(IF d > 0 /\ d < 15 /\ w.st.long = 0 THEN WByte(w, 16 * d + code)
       ELSE WI16(WByte(w, code), W(id)))
      EXCEPT !.last = id]

\* t: API-level type code, 1 for bool; a bool's header waits for the value
WFieldBegin(w, t, id) == IF t = 1 THEN [w EXCEPT !.pend = id] ELSE Header(w, t, id)
WBool(w, b) == IF w.pend # NOPEND
               THEN [Header(w, IF b = 1 THEN 1 ELSE 2, w.pend) EXCEPT !.pend = NOPEND]
               ELSE WByte(w, IF b = 1 THEN 1 ELSE 2)
WFieldStop(w) == WByte(w, 0)

WStructBegin(w) == [w EXCEPT !.stk = Append(@, w.last), !.last = 0]
WStructEnd(w) == [w EXCEPT !.last = w.stk[Len(w.stk)], !.stk = SubSeq(@, 1, Len(@) - 1)]

\* sz: the size as a word
WListBegin(w, t, sz) == LET n == USize(sz)
                        IN IF n <= 14 /\ w.st.llist = 0 THEN WByte(w, 16 * n + t)
                           ELSE WU(WByte(w, 240 + t), sz, 4)
WMapBegin(w, k, t, sz) == IF USize(sz) = 0 THEN WByte(w, 0)
                          ELSE WByte(WU(w, sz, 4), 16 * k + t)

\* type 1..4, sequence number as a word, name
WMessageBegin(w, t, seq, n, name) == WBytes(WU(WByte(WByte(w, 130), 32 * t + 1), seq, 4), n, name)
=============================================================================
