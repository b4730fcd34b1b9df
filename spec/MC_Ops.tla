------------------------------- MODULE MC_Ops -------------------------------
(* Any properly nested sequence of reads on one reader: from every state the reader can     *)
(* reach on an input, every call.  Each transition is emitted with the calls leading to it.  *)
EXTENDS Api, FiniteSets, TLC

CONSTANTS Depth,     \* longest sequence
          Strict,    \* only sequences that make sense: fields inside structs, messages outside,
                     \* the value of a bool field read or skipped before anything else
          Seeks,     \* the source may be repositioned between the calls
          Thorough

Inputs == <<
  <<130, 33, 5, 2, 104, 105, 21, 2, 17, 18, 24, 1, 97, 28, 17, 0, 0, 130, 65, 1, 0, 21, 4, 0>>,
  <<17, 17, 18, 2, 3, 1, 2, 0, 0, 0, 1, 2, 17>>,
  <<28, 28, 12, 2, 17, 0, 18, 0, 0, 0, 28, 0, 0>>,
  <<25, 37, 2, 4, 27, 1, 85, 2, 2, 26, 33, 1, 2, 19, 255, 0, 0>>,
  <<130, 33, 1, 1, 97, 130, 65, 2, 1, 98, 28, 130, 97, 3, 0, 17, 0, 0>>,
  <<128, 1, 255, 255, 3, 1, 128, 128, 128, 128, 8, 129, 128, 128, 128, 128, 128, 128, 128, 128, 1, 2, 195, 169, 1, 128, 0>>,
  <<5, 252, 255, 3, 21, 2, 240, 17, 1, 1, 17, 1, 255, 255, 3, 17, 0>>,
  <<25, 25, 17, 1, 2, 57, 24, 1, 97, 0, 12, 9, 21, 0, 0, 0>>,
  <<27, 2, 129, 1, 97, 1, 1, 98, 2, 29, 11, 0, 1, 8, 0, 17, 2>>,
  <<12, 2, 28, 130, 129, 0, 0, 17, 0, 18, 0, 17>>,
  <<23, 1, 2, 3, 4, 5, 6, 7, 8, 22, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1, 20, 255, 255, 3, 0>> >>
Limits == IF Thorough THEN {INF, 7, 12, 18, 40} ELSE {INF, 12}

Plain == {<<c, <<>> >> : c \in {MSG_BEGIN, STRUCT_BEGIN, FIELD_BEGIN, BOOL, I8, I16, I32, I64, DOUBLE, TEXT, BYTES, LIST_BEGIN, SET_BEGIN, MAP_BEGIN, BYTE,
                               MSG_END, FIELD_END, LIST_END}}
Whole == {<<SKIP, <<t>> >> : t \in {0, 1, 3, 5, 8, 9, 11, 12}} \cup {<<SKIPD, <<12, d>> >> : d \in {1, 2}}
         \cup {<<VAL, <<t, 1>> >> : t \in {101, 112, 115, 132, 205}} \cup {<<READ_LIST, <<t>> >> : t \in {1, 3, 6, 9, 115}}

VARIABLES inp, lim, r, hist, rs, s
vars == <<inp, lim, r, hist, rs, s>>
Init == /\ inp \in 1..Len(Inputs) /\ lim \in Limits
        /\ r = NewReader(lim) /\ hist = <<>> /\ rs = <<>> /\ s = OK

\* by whole items and by halves, to both ends and past them
Moves == IF ~Seeks THEN {}
         ELSE {<<SEEK, <<0, k>> >> : k \in {0, 1, 3, Len(Inputs[inp]) - 1, Len(Inputs[inp]), Len(Inputs[inp]) + 3}}
              \cup {<<SEEK, <<1, k>> >> : k \in {-2, -1, 0, 1, 2}} \cup {<<SEEK, <<2, k>> >> : k \in {-3, 0, 1, -1000}} \cup {<<SEEK, <<k, 0>> >> : k \in 3..4}
AnyCall == Moves \cup Plain \cup Whole \cup (IF r.stk = <<>> THEN {} ELSE {<<STRUCT_END, <<>> >>})
Calls1 == IF ~Strict THEN AnyCall
          ELSE IF r.pend # 0 THEN {<<BOOL, <<>> >>, <<SKIP, <<1>> >>} \cup Moves
          ELSE {op \in AnyCall : IF r.stk = <<>> THEN op[1] # FIELD_BEGIN ELSE op[1] # MSG_BEGIN}

Call(op) ==
  \E x \in {ROp(Inputs[inp], r, op)} :
    LET v == IF x.s # OK THEN <<>> ELSE x.v
        all == Append(rs, <<op[1], Len(op[2])>> \o op[2] \o <<x.s, x.r.pos, Len(v)>> \o v)
    IN /\ PrintT(ToString(<<4, lim, Len(Inputs[inp])>> \o Inputs[inp] \o <<Len(all)>> \o Concat(all)))
       /\ s' = x.s
       /\ r' = IF x.s = OK THEN x.r ELSE r
       /\ hist' = Append(hist, op)
       /\ rs' = all
       /\ UNCHANGED <<inp, lim>>
Next == /\ s = OK /\ Len(hist) < Depth /\ Len(r.stk) <= 3
        /\ \E op \in Calls1 : Call(op)
Spec == Init /\ [][Next]_vars
\* the calls before matter to the machine by the state they lead to only; the last is told apart for good measure
View == <<inp, lim, r, s, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>

----------------------------------------------------------------------------
\* C12: the numbering of the enclosing levels is kept whatever is read inside
Levels == [][s' = OK => LET op == hist'[Len(hist')][1]
                        IN CASE op = STRUCT_BEGIN -> r'.stk = Append(r.stk, r.last) /\ r'.last = 0
                             [] op = STRUCT_END -> Append(r'.stk, r'.last) = r.stk
                             [] op = FIELD_BEGIN -> r'.stk = r.stk
                             [] op = MSG_BEGIN -> r'.stk = r.stk
                             [] OTHER -> r'.stk = r.stk /\ r'.last = r.last]_vars
\* C08: the budget is spent, never refunded, and only by what is charged
Spent == [][s' = OK => IF lim = INF THEN r'.rem = INF ELSE r'.rem <= r.rem /\ r'.rem >= 0]_vars
\* what is not a bool leaves a pending bool alone, and never invents one
Pending == [][(s' = OK /\ r'.pend # r.pend) => hist'[Len(hist')][1] \in {FIELD_BEGIN, BOOL, SKIP, SKIPD, VAL, READ_LIST}]_vars
Forward == [][(hist' # hist /\ hist'[Len(hist')][1] # SEEK) => r'.pos >= r.pos]_vars
\* C20: repositioning the source changes nothing else
Repositioned == [][(hist' # hist /\ hist'[Len(hist')][1] = SEEK) => r' = [r EXCEPT !.pos = r'.pos]]_vars
=============================================================================
