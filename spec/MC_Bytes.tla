------------------------------ MODULE MC_Bytes ------------------------------
(* The reader one byte at a time: from every state in which it waits for input, every one   *)
(* of the 256 next bytes.  A state is an input that ends too early, with the configuration   *)
(* the machine reaches on it; inputs leading to the same control state are explored once     *)
(* (element counts above 3 count as alike).                                                  *)
EXTENDS Api, FiniteSets, TLC

CONSTANTS Starts,     \* what is read: "types", "few", "skips", "ops"
          Depth       \* longest input extended

VARIABLES st,     \* the operation, <<code, args>>
          p,      \* the input so far
          c       \* configuration before the step that lacks input
vars == <<st, p, c>>

INFR == NewReader(INF)
SkipCfg(t, d) == Cfg(INFR, <<KLFrame(t, 1, d)>>, RUN, <<>>)
First(op) == CASE op[1] = VAL -> Start(<<>>, INFR, op[2][1])
               [] op[1] = SKIP -> SkipCfg(op[2][1], MAXSKIP)
               [] op[1] = SKIPD -> SkipCfg(op[2][1], op[2][2])
               [] op[1] = READ_LIST -> Cfg(INFR, <<LFrame(1000 + op[2][1], 1)>>, RUN, <<>>)

Ops == {<<SKIP, <<t>> >> : t \in {0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}} \cup {<<SKIPD, <<t, d>> >> : t \in {9, 10, 11, 12}, d \in {1, 2}}
       \cup {<<READ_LIST, <<t>> >> : t \in {1, 3, 6, 8, 9, 101, 112, 115, 132}}
       \cup {<<READ_LIST, <<t>> >> : t \in EnumIds} \cup {<<VAL, <<t, 1>> >> : t \in EnumIds}
Operations == CASE Starts = "types" -> {<<VAL, <<t, 1>> >> : t \in TypeIds}
                [] Starts = "few" -> {<<VAL, <<t, 1>> >> : t \in {101, 108, 112, 115, 132, 146}}
                [] Starts = "skips" -> {<<SKIP, <<t>> >> : t \in {0, 1, 8, 9, 11, 12}} \cup {<<SKIPD, <<t, 2>> >> : t \in {10, 11, 12}}
                                       \cup {<<READ_LIST, <<t>> >> : t \in {1, 3, 9, 112, 115, 203}}
                [] Starts = "ops" -> {op \in Ops : op[1] # VAL}

Init == /\ st \in Operations
        /\ p = <<>>
        /\ c = First(st)

\* run until input is lacking (then the configuration before the step) or to the end
RECURSIVE RunTo(_, _)
RunTo(inp, d) == LET e == DStep(inp, d) IN IF e.s = T_EOF THEN d ELSE IF e.s # RUN THEN e ELSE RunTo(inp, e)

\* inside a token a choice of bytes is extended; at its start every byte
Inside == {0, 1, 2, 3, 5, 12, 21, 25, 27, 28, 64, 127, 128, 129, 195, 245, 252, 255}
AtToken == c.r.pos = Len(p)

\* the outcome after one more byte
Result(e) == IF e.s = RUN THEN <<T_EOF>>
             ELSE IF e.s # OK THEN <<e.s>>
             ELSE LET v == IF st[1] = VAL THEN e.v ELSE IF st[1] = READ_LIST THEN SubSeq(e.v, 3, Len(e.v)) ELSE <<>>
                  IN <<OK, e.r.pos, Len(v)>> \o v

Next == /\ Len(p) <= Depth
        /\ \E o \in {[b \in 1..256 |-> RunTo(Append(p, b - 1), c)]} :
             /\ PrintT(ToString(<<13, st[1], Len(st[2])>> \o st[2] \o <<Len(p)>> \o p \o Concat([b \in 1..256 |-> Result(o[b])])))
             /\ Len(p) < Depth
             /\ \E b \in IF AtToken THEN 1..256 ELSE {x + 1 : x \in Inside} :
                  /\ o[b].s = RUN
                  /\ p' = Append(p, b - 1)
                  /\ c' = o[b]
                  /\ st' = st
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what decides the future, apart from the numbering base and the values read
AbsFrame(f) == <<f.f, f.t, f.u, Min(f.n, 3), f.d, {f.got[i][1] : i \in DOMAIN f.got}>>
Partial == SubSeq(p, c.r.pos + 1, Len(p))
AbsPartial ==
  LET t == Top(c.k)
      h == Partial[1]
      id == c.r.last + h \div 16
  IN IF Partial = <<>> THEN <<>>
     ELSE IF t.f \notin {"S", "KS"} THEN Partial
     ELSE <<h % 16, IF h \div 16 = 0 THEN -1 ELSE IF t.f = "S" /\ FieldIx(t.t, id) # 0 THEN id ELSE 0>> \o Tail(Partial)
View == <<st, [i \in DOMAIN c.k |-> AbsFrame(c.k[i])], c.r.pend, AbsPartial>>

----------------------------------------------------------------------------
\* the machine waits only for bytes it has not been given, and its frames stay balanced
Waiting == c.s = RUN /\ c.r.pos <= Len(p) /\ c.k # <<>>
Levels == Len(c.r.stk) = Cardinality({i \in DOMAIN c.k : c.k[i].f \in {"S", "KS"}})
=============================================================================
