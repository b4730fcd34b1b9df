-------------------------------- MODULE Tape --------------------------------
(* Metadata over any protocol whatsoever.  A protocol is known by the calls made on it: a    *)
(* tape is the sequence of calls that write a value, and of the answers from which it is     *)
(* read; <<code, args>> with the codes of module Api, names as bytes at the end.             *)
(* A field without an id has id NOID.                                                        *)
EXTENDS Api, Values

NOID == 99999
APP == 99           \* application errors, as a struct type: 1 message, 2 kind

FieldsAt(t) == IF t = APP THEN <<<<1, 9, 0>>, <<2, 5, 0>>>> ELSE FieldsOf(t)
StructAt(t) == t = APP \/ IsStruct(t)
IxAt(t, id) == LET S == {i \in DOMAIN FieldsAt(t) : FieldsAt(t)[i][1] = id} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
NamesOf(t) == IF t = APP THEN <<<<84, 65, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 69, 120, 99, 101, 112, 116, 105, 111, 110>>,
                                <<<<109, 101, 115, 115, 97, 103, 101>>, <<116, 121, 112, 101>>>> >>
              ELSE NameTable[t - 99]

----------------------------------------------------------------------------
(* The tape of a value.  An entry <<id, -wire type, v>> is a field unknown to the schema,    *)
(* v a value of module Api.                                                                 *)

RECURSIVE TapeOf(_, _), TapeFields(_, _, _), TapeElems(_, _, _)
TapeOf(t, v) ==
  CASE t = 1 -> <<Op(BOOL, <<v>>)>>
    [] t \in {3, 4, 5, 6} -> <<Op(t + 6, v)>>
    [] IsEnum(t) -> <<Op(I32, v)>>
    [] t = 7 -> <<Op(DOUBLE, v)>>
    [] t = 8 -> <<Op(BYTES, v[3])>>
    [] t = 9 -> <<Op(TEXT, v[3])>>
    [] IsList(t) -> <<Op(LIST_BEGIN, <<WireOf(ElemOf(t))>> \o Sz(Len(v[2])))>> \o TapeElems(ElemOf(t), v[2], 1) \o <<Op(LIST_END, <<>>)>>
    [] StructAt(t) -> <<Op(STRUCT_BEGIN, NamesOf(t)[1])>> \o TapeFields(t, v, 1) \o <<Op(FIELD_STOP, <<>>), Op(STRUCT_END, <<>>)>>
TapeElems(t, es, i) == IF i > Len(es) THEN <<>> ELSE TapeOf(t, es[i]) \o TapeElems(t, es, i + 1)
TapeFields(t, v, i) ==
  IF i > Len(v) THEN <<>>
  ELSE LET f == v[i]
           ix == IxAt(t, f[1])
       IN (IF Len(f) = 3 THEN <<Op(FIELD_BEGIN, <<-f[2], f[1]>>)>> \o Calls(f[3], "w")
           ELSE <<Op(FIELD_BEGIN, <<WireOf(FieldsAt(t)[ix][2]), f[1]>> \o NamesOf(t)[2][ix])>> \o TapeOf(FieldsAt(t)[ix][2], f[2]))
          \o <<Op(FIELD_END, <<>>)>> \o TapeFields(t, v, i + 1)

----------------------------------------------------------------------------
(* Every beginning has its end, and what is between them is what belongs there.              *)
(* An automaton over the codes alone: a stack of what is open.                               *)

Closer == [c \in {STRUCT_BEGIN, LIST_BEGIN, SET_BEGIN, MAP_BEGIN} |->
           CASE c = STRUCT_BEGIN -> STRUCT_END [] c = LIST_BEGIN -> LIST_END [] c = SET_BEGIN -> SET_END [] OTHER -> MAP_END]
Leaf == {BOOL, I8, I16, I32, I64, DOUBLE, TEXT, BYTES, BYTE}
\* one call on a stack of open calls, innermost last; <<-1>> when it is out of place
Nest(o, c) ==
  LET in == IF o = <<>> THEN 0 ELSE o[Len(o)]
      value == in # STRUCT_BEGIN /\ in # FIELD_STOP /\ in # FIELD_END
  IN IF o = <<-1>> THEN o
     ELSE IF c \in Leaf THEN (IF in = FIELD_BEGIN THEN [o EXCEPT ![Len(o)] = FIELD_END] ELSE IF value THEN o ELSE <<-1>>)
     ELSE IF c \in DOMAIN Closer THEN (IF value THEN Append(o, c) ELSE <<-1>>)
     ELSE IF c = FIELD_BEGIN THEN (IF in = STRUCT_BEGIN THEN Append(o, c) ELSE <<-1>>)
     ELSE IF c = FIELD_END THEN (IF in = FIELD_END THEN SubSeq(o, 1, Len(o) - 1) ELSE <<-1>>)
     ELSE IF c = FIELD_STOP THEN (IF in = STRUCT_BEGIN THEN [o EXCEPT ![Len(o)] = FIELD_STOP] ELSE <<-1>>)
     ELSE IF o # <<>> /\ (IF c = STRUCT_END THEN in = FIELD_STOP ELSE in \in DOMAIN Closer /\ in # STRUCT_BEGIN /\ Closer[in] = c)
          THEN LET u == SubSeq(o, 1, Len(o) - 1)
               IN IF u # <<>> /\ u[Len(u)] = FIELD_BEGIN THEN [u EXCEPT ![Len(u)] = FIELD_END] ELSE u
     ELSE <<-1>>

----------------------------------------------------------------------------
(* Reading: what is asked of the protocol next, and what its answer leads to.               *)
(* cfg = [stk, s, v]; the frame on top says what is going on:                               *)
(*   <<1, type>>                          a value is wanted                                 *)
(*   <<2, type, fields, n>>               a field is wanted, n have been seen               *)
(*   <<3, type, fields, n, id>>           the value of field id has been, or is being, read *)
(*   <<4, type, fields, n>>               the end of the struct is wanted                   *)
(*   <<5, element type, left, elements>>  a list                                            *)
(*   <<6, wire type, levels>>             something is skipped                              *)
(*   <<7, levels>> <<8, levels>> <<9>>    a struct skipped: field, end of field, end        *)
(*   <<10, element type, left, levels, its end>>   a list or set skipped                    *)
(*   <<11, key type, value type, left, levels, key or value next>>                          *)

Cf(stk, s, v) == [stk |-> stk, s |-> s, v |-> v]
Under(stk) == SubSeq(stk, 1, Len(stk) - 1)
Last1(stk) == stk[Len(stk)]
Swap(stk, f) == Append(Under(stk), f)
Stop2(s) == Cf(<<>>, s, <<>>)

RECURSIVE Turn(_), Hand(_, _)
\* until the protocol is to be asked something
Turn(stk) ==
  LET f == Last1(stk)
  IN CASE f[1] = 5 /\ f[3] > 0 -> Turn(Append(stk, <<1, f[2]>>))
       [] f[1] = 6 -> IF f[3] <= 0 THEN Stop2(P_DEPTH) ELSE IF f[2] = 0 THEN Stop2(P_UNKNOWN) ELSE Cf(stk, RUN, <<>>)
       [] f[1] = 10 /\ f[3] > 0 -> Turn(Append(stk, <<6, f[2], f[4] - 1>>))
       [] f[1] = 11 /\ f[4] > 0 -> Turn(Append(stk, <<6, f[2 + f[6]], f[5] - 1>>))
       [] OTHER -> Cf(stk, RUN, <<>>)
\* the value on top is complete
Hand(stk, v) ==
  IF Len(stk) = 1 THEN Cf(<<>>, OK, v)
  ELSE LET u == Under(stk)
           f == Last1(u)
       IN CASE f[1] = 3 -> Cf(Swap(u, <<3, f[2], Put(f[3], f[5], v), f[4], f[5]>>), RUN, <<>>)
            [] f[1] = 5 -> Turn(Swap(u, <<5, f[2], f[3] - 1, Append(f[4], v)>>))
Past(stk) ==
  IF Len(stk) = 1 THEN Cf(<<>>, OK, <<>>)
  ELSE LET u == Under(stk)
           f == Last1(u)
       IN CASE f[1] \in {3, 8} -> Cf(u, RUN, <<>>)
            [] f[1] = 10 -> Turn(Swap(u, <<10, f[2], f[3] - 1, f[4], f[5]>>))
            [] f[1] = 11 -> Turn(Swap(u, <<11, f[2], f[3], IF f[6] = 1 THEN f[4] - 1 ELSE f[4], f[5], 1 - f[6]>>))

\* the calls that may be made: which one the answer makes it is the protocol's choice
Call(wt) == CASE wt = 1 -> BOOL [] wt \in 3..6 -> wt + 6 [] wt = 7 -> DOUBLE [] wt = 8 -> BYTES [] wt = 9 -> LIST_BEGIN
              [] wt = 10 -> SET_BEGIN [] wt = 11 -> MAP_BEGIN [] wt = 12 -> STRUCT_BEGIN
Asked(stk) ==
  LET f == Last1(stk)
  IN CASE f[1] = 1 -> {IF f[2] = 9 THEN TEXT ELSE IF f[2] = APP THEN STRUCT_BEGIN ELSE Call(WireOf(f[2]))}
       [] f[1] \in {2, 7} -> {FIELD_BEGIN, FIELD_STOP}
       [] f[1] \in {3, 8} -> {FIELD_END}
       [] f[1] \in {4, 9} -> {STRUCT_END}
       [] f[1] = 5 -> {LIST_END}
       [] f[1] = 6 -> {IF f[2] = 8 THEN BYTES ELSE Call(f[2])}
       [] f[1] = 10 -> {f[5]}
       [] f[1] = 11 -> {MAP_END}

SizeOf(a, i) == a[i] + 256 * a[i + 1] + 65536 * a[i + 2]     \* small ones
Missing(t, fs) == \E i \in DOMAIN FieldsAt(t) : FieldsAt(t)[i][3] = 1 /\ \A j \in DOMAIN fs : fs[j][1] # FieldsAt(t)[i][1]

Answered(stk, op) ==
  LET f == Last1(stk)
      a == op[2]
  IN CASE f[1] = 1 -> IF StructAt(f[2]) THEN Turn(Swap(stk, <<2, f[2], <<>>, 0>>))
                      ELSE IF IsList(f[2]) THEN Turn(Swap(stk, <<5, ElemOf(f[2]), SizeOf(a, 2), <<>> >>))
                      ELSE Hand(stk, IF f[2] = 1 THEN a[1] ELSE IF f[2] \in {8, 9} THEN Lit(a) ELSE a)
       [] f[1] = 2 -> IF op[1] = FIELD_STOP THEN Cf(Swap(stk, <<4, f[2], f[3], f[4]>>), RUN, <<>>)
                      ELSE IF a[2] = NOID THEN Stop2(P_UNKNOWN)
                      ELSE LET ix == IxAt(f[2], a[2])
                               s == Swap(stk, <<3, f[2], f[3], f[4] + 1, a[2]>>)
                           IN Turn(Append(s, IF ix = 0 THEN <<6, a[1], MAXSKIP>> ELSE <<1, FieldsAt(f[2])[ix][2]>>))
       [] f[1] = 3 -> Cf(Swap(stk, <<2, f[2], f[3], f[4]>>), RUN, <<>>)
       [] f[1] = 4 -> IF f[2] # APP /\ IsUnion(f[2]) /\ (f[4] # 1 \/ f[3] = <<>>) THEN Stop2(P_INVALID)
                      ELSE IF Missing(f[2], f[3]) THEN Stop2(P_UNKNOWN)
                      ELSE Hand(stk, f[3])
       [] f[1] = 5 -> Hand(stk, <<0, f[4]>>)
       [] f[1] = 6 -> CASE f[2] = 12 -> Cf(Swap(stk, <<7, f[3]>>), RUN, <<>>)
                        [] f[2] \in {9, 10} -> Turn(Swap(stk, <<10, a[1], SizeOf(a, 2), f[3], IF f[2] = 9 THEN LIST_END ELSE SET_END>>))
                        [] f[2] = 11 -> Turn(Swap(stk, <<11, a[1], a[2], SizeOf(a, 3), f[3], 0>>))
                        [] OTHER -> Past(stk)
       [] f[1] = 7 -> IF op[1] = FIELD_STOP THEN Cf(Swap(stk, <<9>>), RUN, <<>>)
                      ELSE Turn(Append(Swap(stk, <<8, f[2]>>), <<6, a[1], f[2] - 1>>))
       [] f[1] = 8 -> Cf(Swap(stk, <<7, f[2]>>), RUN, <<>>)
       [] OTHER -> IF f[1] \in {9, 10, 11} THEN Past(stk) ELSE Stop2(P_UNKNOWN)
=============================================================================
