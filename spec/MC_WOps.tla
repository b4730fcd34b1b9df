------------------------------- MODULE MC_WOps ------------------------------
(* Any properly nested sequence of writes on one writer: from every state the writer can    *)
(* be in, every call; then the mirrored reads of what was written.                          *)
EXTENDS Api, FiniteSets, TLC

CONSTANTS Depth, Thorough

Ids == {-32768, -1, 0, 1, 2, 15, 16, 17, 32767} \cup (IF Thorough THEN {14, 30, 31, 32766, -2} ELSE {})
Outside == {<<MSG_BEGIN, <<t>> \o q \o n>> : t \in {1, 4}, q \in {<<0, 0, 0, 0>>, <<44, 1, 0, 0>>, <<255, 255, 255, 255>>}, n \in {<<>>, <<97>>}}
Fields == {<<FIELD_BEGIN, <<t, i>> >> : t \in {1, 3, 12}, i \in Ids} \cup {<<FIELD_STOP, <<>> >>, <<STRUCT_END, <<>> >>}
KeyOf == <<0, 0, <<107>> >>
KeyK == Flat(132, << <<1, KeyOf>> >>)
Int8 == Flat(115, << <<1, W(8)>>, <<2, 1>> >>)
Scalars == {<<BOOL, <<b>> >> : b \in 0..1} \cup {<<I8, W(-1)>>, <<I16, W(-32768)>>, <<I32, W(64)>>, <<I64, Bit(63)>>, <<DOUBLE, <<0, 0, 0, 0, 0, 0, 240, 63>> >>,
            <<TEXT, <<>> >>, <<TEXT, <<104, 105>> >>, <<BYTES, <<255>> >>, <<BYTE, <<200>> >>,
            <<VAL, <<132>> \o KeyK>>, <<VAL, <<115>> \o Int8>>}
Heads == {<<STRUCT_BEGIN, <<>> >>} \cup {<<c, <<t>> \o Sz(n)>> : c \in {LIST_BEGIN, SET_BEGIN}, t \in {1, 12}, n \in {0, 14, 15}}
         \cup {<<MAP_BEGIN, <<8, 1>> \o Sz(n)>> : n \in {1, 200}} \cup {<<MAP_BEGIN, <<-1, -1, 0, 0, 0, 0>> >>}
         \cup {<<c, <<>> >> : c \in {FIELD_END, LIST_END, MSG_END}}

VARIABLES w, ops, em, rd
vars == <<w, ops, em, rd>>
Init == w = NewWriter(CANON) /\ ops = <<>> /\ em = <<>> /\ rd = <<>>

\* the value of a bool field comes right after its header
Enabled1 == IF w.pend # NOPEND THEN {<<BOOL, <<b>> >> : b \in 0..1}
            ELSE Scalars \cup Heads \cup (IF w.stk = <<>> THEN Outside ELSE Fields)

RECURSIVE ReadBack(_, _, _)
ReadBack(inp, r, i) ==
  IF i > Len(ops') THEN <<>>
  ELSE LET o == ops'[i]
           \* a value is read with its own type, everything else tells its own
           op == <<IF o[1] = FIELD_STOP THEN FIELD_BEGIN ELSE o[1], IF o[1] = VAL THEN <<o[2][1], 1>> ELSE <<>> >>
           x == ROp(inp, r, op)
       IN << << <<op[1], Len(op[2])>> \o op[2] \o <<x.s, x.r.pos, IF x.s = OK THEN Len(x.v) ELSE 0>> \o (IF x.s = OK THEN x.v ELSE <<>>), x.s = OK /\ x.v = Mirror(o)>> >>
          \o (IF x.s = OK THEN ReadBack(inp, x.r, i + 1) ELSE <<>>)

Call(op) == /\ w' = WOp(w, op)
            /\ ops' = Append(ops, op)
            /\ em' = Append(em, Len(w'.out) - Len(w.out))
            /\ PrintT(ToString(<<3, Len(ops')>> \o Concat([k \in 1..Len(ops') |-> <<ops'[k][1], Len(ops'[k][2])>> \o ops'[k][2] \o <<em'[k]>>])
                               \o <<Len(w'.out)>> \o w'.out))
            /\ IF w'.pend # NOPEND THEN rd' = <<>>
               ELSE /\ \E x \in {ReadBack(w'.out, NewReader(INF), 1)} : rd' = x
                    /\ PrintT(ToString(<<4, -1, Len(w'.out)>> \o w'.out \o <<Len(rd')>> \o Concat([k \in 1..Len(rd') |-> rd'[k][1]])))
Next == Len(ops) < Depth /\ Len(w.stk) <= 3 /\ \E op \in Enabled1 : Call(op)
Spec == Init /\ [][Next]_vars
View == <<w.last, w.stk, w.pend, IF ops = <<>> THEN <<>> ELSE ops[Len(ops)]>>

----------------------------------------------------------------------------
\* C13: everything written is read back by the mirrored calls
Mirrored == [][rd' # <<>> => Len(rd') = Len(ops') /\ \A k \in 1..Len(rd') : rd'[k][2]]_vars
RECURSIVE Sum(_, _)
Sum(e, k) == IF k > Len(e) THEN 0 ELSE e[k] + Sum(e, k + 1)
\* C10
Counted2 == [][Sum(em', 1) = Len(w'.out)]_vars
\* C12: a struct's fields leave the numbering around it alone
Levels == [][LET op == ops'[Len(ops')][1]
             IN CASE op = STRUCT_BEGIN -> w'.stk = Append(w.stk, w.last) /\ w'.last = 0
                  [] op = STRUCT_END -> Append(w'.stk, w'.last) = w.stk
                  [] op \in {FIELD_BEGIN, BOOL} -> w'.stk = w.stk
                  [] OTHER -> w'.stk = w.stk /\ w'.last = w.last]_vars
=============================================================================
