------------------------------- MODULE MC_Api -------------------------------
(* Histories of protocol calls: values are written call by call on one writer, then read   *)
(* back by the mirrored calls on one reader, then read again skipping every field.         *)
EXTENDS Api, Values, FiniteSets

CONSTANTS Family, Thorough

Ids == {-32768, -1, 0, 1, 2, 14, 15, 16, 17, 32767}
IdsS == IF Thorough THEN Ids ELSE {-1, 0, 1, 2, 15, 16, 17, 32767}

S(n) == <<8, 1, [i \in 1..n |-> 97 + (i % 26)]>>
B(n) == <<8, 0, [i \in 1..n |-> (i * 37 + 200) % 256]>>
\* a value of each wire type, g varies it
A(t, g) == CASE t = 1 -> <<1, g % 2>>
             [] t = 3 -> <<3, SExt(<<(200 + g) % 256>>, 1)>>
             [] t = 4 -> <<4, W(300 - 601 * (g % 2) + g)>>
             [] t = 5 -> <<5, W(70000 + g)>>
             [] t = 6 -> <<6, Neg(Add(Bit(40), W(g)))>>
             [] t = 7 -> <<7, <<g % 256, 1, 2, 128, 255, 0, 240, 63>> >>
             [] t = 8 -> IF g % 2 = 0 THEN S(g + 1) ELSE B(g + 1)
             [] t = 9 -> <<9, 5, <<<<5, W(g)>>, <<5, W(-g)>>>> >>
             [] t = 10 -> <<10, 1, <<<<1, 1>>, <<1, 0>>, <<1, g % 2>>>> >>
             [] t = 11 -> <<11, 8, 1, << <<S(2), <<1, 1>>>>, <<S(3), <<1, 0>>>> >> >>
             [] t = 12 -> <<12, << <<1, <<5, W(g)>>>>, <<2, <<1, 0>>>>, <<20, <<1, 1>>>> >> >>
Types == {1} \cup (3..12)
L(c, t, n) == <<c, t, [i \in 1..n |-> A(t, i)]>>
M(k, t, n) == <<11, k, t, [i \in 1..n |-> <<A(k, i), A(t, i + 1)>>]>>
St(fs) == <<12, fs>>
Md(t, v) == <<20, t, Flat(t, v)>>

\* every value of every wire type as the only field
Scalars ==
  {<<1, b>> : b \in 0..1} \cup {<<3, v>> : v \in Pal8} \cup {<<4, v>> : v \in Pal16} \cup {<<5, v>> : v \in Pal32} \cup {<<6, v>> : v \in Pal64}
  \cup {<<7, b>> : b \in {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<0, 0, 0, 0, 0, 0, 240, 127>>, <<1, 2, 3, 4, 5, 6, 7, 8>>,
                          <<255, 255, 255, 255, 255, 255, 239, 127>>, <<1, 0, 0, 0, 0, 0, 248, 127>>, <<24, 45, 68, 84, 251, 33, 9, 64>>}}
  \cup {S(n) : n \in {0, 1, 127, 128, 129, 300}} \cup {B(n) : n \in {0, 1, 127, 128, 129, 300}}
Sizes == {0, 1, 2, 13, 14, 15, 16, 17, 127, 128} \cup (IF Thorough THEN {129, 300} ELSE {})
Colls == {L(c, t, n) : c \in {9, 10}, t \in Types, n \in Sizes}
         \cup {M(k, t, n) : k \in Types, t \in Types, n \in {0, 1, 3}} \cup {M(8, t, n) : t \in Types, n \in {15, 16}} \cup {M(5, 1, n) : n \in {127, 128}}
         \cup {<<11, -1, -1, <<>> >>}
         \cup {<<9, 9, <<L(9, 1, 3), L(9, 12, 2), L(9, 8, 0)>> >>, <<9, 11, <<M(5, 12, 2), M(1, 1, 1)>> >>, <<9, 12, <<A(12, 1), St(<<>>), A(12, 2)>> >>,
               <<11, 12, 9, <<<<A(12, 3), L(9, 12, 2)>>>> >>, <<10, 10, <<L(10, 3, 15), L(10, 4, 0)>> >>}
Values1 == {<<St(<< <<1, v>>, <<2, A(5, 9)>> >>)>> : v \in Scalars \cup Colls}
           \cup {<<v>> : v \in Colls \cup Scalars}

\* two and three fields: every pair and triple of ids, types chosen to have and not have headers of their own
Pairs == {<<St(<< <<i, A(t, 1)>>, <<j, A(u, 2)>> >>)>> : i \in Ids, j \in Ids, t \in {1, 5, 12}, u \in {1, 8}}
Triples == {<<St(<< <<i, A(t, 1)>>, <<j, A(1, 3)>>, <<k, A(u, 2)>> >>)>> : i \in IdsS, j \in IdsS, k \in IdsS, t \in {1, 3}, u \in {1, 4}}
\* one of each type in a row
Runs == {<<St([n \in 1..11 |-> LET t == (n + k) % 11 IN <<d * n, A(IF t = 0 THEN 1 ELSE t + 1 + (IF t = 1 THEN 10 ELSE 0), n)>>])>>
         : k \in 0..10, d \in {1, 14, 15, 16, -1, 1000}}
Steps == {<<St(<< <<i, A(t, 1)>>, <<i + d, A(u, 2)>> >>)>> : i \in {-20, 0, 1, 100, 200, 8000, 16383}, d \in -17..17, t \in {1, 5}, u \in {1, 5}}

\* field numbering across nesting: fields before, inside and after nested structs
Nest2 == {<<St(<< <<i, A(1, 1)>>, <<j, St(<< <<k, A(1, 1)>>, <<l, A(5, 2)>> >>)>>, <<m, A(1, 0)>> >>)>>
          : i \in {1, 15, 32767}, j \in {2, 16, -1, 17}, k \in {1, 16, -1, 32767}, l \in {2, 17, 0, 1}, m \in {3, 18, 0, 1, 32767, -32768}}
NestI == {-1, 0, 1, 16}
Nest3 == {<<St(<< <<a, St(<< <<b, St(<< <<c, A(1, 1)>> >>)>>, <<d, A(1, 0)>> >>)>>, <<e, A(1, 1)>> >>)>>
          : a \in NestI, b \in NestI, c \in NestI, d \in NestI, e \in NestI}
         \cup {<<St(<< <<a, St(<< <<b, St(<< <<c, A(1, 1)>> >>)>>, <<d, A(1, 0)>> >>)>>, <<e, A(1, 1)>> >>)>>
          : a \in {1, 15, 16, 300}, b \in {1, 14, 15, 16}, c \in {1, 15, -3, 32767}, d \in {1, 2, 15, 17, 30}, e \in {2, 15, 16, 31, 301}}
NestL == {<<St(<< <<a, <<9, 12, <<St(<< <<b, A(1, 1)>> >>), St(<<>>), St(<< <<b, A(3, 1)>>, <<c, A(1, 0)>> >>)>> >> >>,
                  <<d, <<11, 12, 12, << <<St(<< <<c, A(1, 0)>> >>), St(<< <<b, A(5, 1)>> >>)>> >> >> >>, <<e, A(1, 1)>> >>)>>
          : a \in {1, 16}, b \in {1, 16, -1}, c \in {2, 17, 32767}, d \in {2, 17, 0}, e \in {3, 18, 33, 32767}}
RECURSIVE DeepS(_, _)
DeepS(n, i) == IF n = 0 THEN St(<< <<i, A(1, 1)>> >>) ELSE St(<< <<i, A(1, 0)>>, <<i + 1, DeepS(n - 1, i + 13)>>, <<i + 2, A(1, 1)>>, <<i + 20, A(3, 3)>> >>)
DeepV == {<<DeepS(n, i)>> : n \in {1, 2, 5, 20, 60}, i \in {1, 15, -1}}

\* consecutive values on one instance
Meta == {Md(115, V(115, 3)), Md(132, V(132, 2)), Md(133, V(133, 1)), Md(112, V(112, 1)), Md(101, <<>>), Md(122, FullV(122, 1, 1)), Md(119, FullV(119, 1, 3))}
Single == {A(t, 3) : t \in {1, 5, 8, 9, 11}} \cup {St(<<>>), St(<< <<32767, A(1, 1)>> >>), St(<< <<-32768, A(5, 1)>> >>), St(<< <<15, A(1, 0)>> >>),
            St(<< <<1, A(1, 1)>>, <<2, Md(133, V(133, 2))>>, <<17, Md(113, V(113, 2))>>, <<18, A(1, 0)>> >>)}
Sequences == {<<x, y>> : x \in Meta \cup Single, y \in Meta \cup Single}
             \cup {<<x, y, z>> : x \in Meta, y \in Single, z \in Meta} \cup {<<x, y, z>> : x \in Single, y \in Meta, z \in {St(<< <<15, A(1, 0)>> >>), A(1, 1)}}
             \cup {<<Md(t, FullV(t, 1, 3)), Md(u, FullV(u, 2, 3)), Md(t, V(t, 2))>> : t \in TypeIds, u \in IF Thorough THEN TypeIds ELSE {133, 123, 140}}
             \cup {<<x, x, x, x, x, y>> : x \in Meta, y \in Single}

\* several values, messages and application errors on one instance, and lists of every type that is read as a list
Msgs == {<<21, t, Sz(k), S(k)[3], vs>> : t \in {1, 4}, k \in {0, 200}, vs \in {<<>>, <<St(<<>>)>>, <<Md(133, V(133, 2))>>, <<A(12, 1), Md(113, V(113, 1))>>}}
        \cup {<<21, 3, Sz(300), S(3)[3], <<<<22, 5, S(9)[3]>>>> >>}
Errs == {<<22, 0, <<>> >>, <<22, 10, S(20)[3]>>}
Lists == {<<9, 12, <<Md(t, FullV(t, 1, 2)), Md(t, V(t, 1)), Md(t, V(t, 2))>> >> : t \in {115, 132, 133, 113, 112, 140}} \cup {L(9, t, n) : t \in {1, 3, 6, 8}, n \in {0, 3, 15}}
         \cup {<<9, 8, <<S(3), S(0), S(130)>> >>}
Histories == {<<x, y>> : x \in Msgs \cup Errs, y \in Msgs \cup Errs \cup Meta} \cup {<<x, y>> : x \in Lists, y \in Single \cup Errs \cup Lists}
             \cup {<<x, y, z, x>> : x \in Errs, y \in Lists, z \in Msgs}
             \cup {<<St(<< <<i, x>>, <<i + 1, y>>, <<i + 1, A(1, 1)>> >>)>> : i \in {0, 14, 32766}, x \in Lists \cup Errs, y \in Lists \cup Errs}
\* what a history is charged, item by item
Charged == {<<x, y>> : x \in Meta \cup Single \cup Errs, y \in Meta \cup Single \cup Lists}
           \cup {<<x, y, x>> : x \in Msgs, y \in Single \cup Errs \cup {Md(133, V(133, 2))}}
           \cup {<<St(<< <<1, A(1, 1)>>, <<2, c>>, <<3, c>> >>)>> : c \in {L(c, t, n) : c \in {9, 10}, t \in Types, n \in {0, 1, 2, 15}} \cup {M(k, t, n) : k \in {1, 5, 8, 12}, t \in Types, n \in {0, 1, 2}}}
           \cup {<<DeepS(n, 1), DeepS(n, 1), A(5, 1)>> : n \in {1, 5, 20}} \cup {<<S(n), B(n), S(1)>> : n \in {0, 1, 127, 128, 300}}
           \cup {<<L(9, 8, 3), M(8, 8, 2), L(10, 1, 200), L(9, 12, 20)>>}

Scenarios == CASE Family = "histories" -> Histories
               [] Family = "charges" -> Charged
               [] Family = "values" -> Values1
               [] Family = "ids" -> Pairs \cup Triples \cup Runs \cup Steps
               [] Family = "nesting" -> Nest2 \cup Nest3 \cup NestL \cup DeepV
               [] Family = "sequences" -> Sequences

----------------------------------------------------------------------------

VARIABLES sc,        \* the values
          ph,        \* "start", "write", "read", "list", "skip"
          ops, wops, \* the calls of this phase, and of the write phase
          i,         \* calls made in this phase
          w, em,     \* writer, bytes emitted by each call
          r, rs,     \* reader, results
          us         \* charged so far, by call
vars == <<sc, ph, ops, wops, i, w, em, r, rs, us>>
BIG == 1000000
Reader0 == NewReader(IF Family = "charges" THEN BIG ELSE INF)

Init == /\ sc \in Scenarios
        /\ ph = "start" /\ ops = <<>> /\ wops = <<>> /\ i = 0
        /\ w = NewWriter(CANON) /\ em = <<>>
        /\ r = Reader0 /\ rs = <<>> /\ us = <<>>

Write(op) == LET x == WOp(w, op)
             IN /\ w' = x
                /\ em' = Append(em, BytesLen(x.out) - BytesLen(w.out))
                /\ UNCHANGED <<r, rs, us>>
Read(op) == LET x == ROp(w.out, r, op)
            IN /\ x.s = OK
               /\ r' = x.r
               /\ rs' = Append(rs, <<x.s, x.r.pos>> \o <<Len(x.v)>> \o x.v)
               /\ us' = Append(us, BIG - x.r.rem)
               /\ UNCHANGED <<w, em>>

EmitW == PrintT(ToString(<<3, Len(ops)>> \o Concat([k \in 1..Len(ops) |-> <<ops[k][1], Len(ops[k][2])>> \o ops[k][2] \o <<em'[k]>>])
                         \o <<Len(w'.out)>> \o w'.out))
ReadLine(l, n, bad) ==
  PrintT(ToString(<<4, l, Len(w.out)>> \o w.out \o <<n + Len(bad)>>
                  \o Concat([k \in 1..n |-> <<ops[k][1], Len(ops[k][2])>> \o ops[k][2] \o rs'[k]])
                  \o (IF bad = <<>> THEN <<>> ELSE <<ops[n + 1][1], Len(ops[n + 1][2])>> \o ops[n + 1][2] \o <<bad[1], 0, 0>>)))
\* the calls that are charged something, and the limits that are met or missed by one at them
Charges == {k \in 1..Len(ops) : us'[k] > (IF k = 1 THEN 0 ELSE us'[k - 1])}
Limits == {0} \cup UNION {{us'[k], us'[k] - 1} : k \in {k \in Charges : LET n == Cardinality({j \in Charges : j < k}) IN n < 4 \/ n > Cardinality(Charges) - 4}}
\* under limit l the calls before the first that goes beyond it succeed
Below(l) == CHOOSE n \in 0..Len(ops) : (\A k \in 1..n : us'[k] <= l) /\ (n < Len(ops) => us'[n + 1] > l)
EmitR == IF Family # "charges" THEN ReadLine(-1, Len(ops), <<>>)
         ELSE \A l \in Limits : ReadLine(l, Below(l), IF Below(l) = Len(ops) THEN <<>> ELSE <<P_SIZE>>)

Step == /\ i < Len(ops)
        /\ i' = i + 1
        /\ IF ph = "write" THEN Write(ops[i + 1]) /\ (i' = Len(ops) => EmitW)
           ELSE Read(ops[i + 1]) /\ (i' = Len(ops) => EmitR)
        /\ UNCHANGED <<sc, ph, ops, wops>>
Turn == /\ i = Len(ops) /\ ph # "skip"
        /\ ph' = (CASE ph = "start" -> "write" [] ph = "write" -> "read"
                        [] ph = "read" -> IF CallsOf(sc, "l") = ops THEN "skip" ELSE "list" [] ph = "list" -> "skip")
        /\ ops' = CallsOf(sc, IF ph = "start" THEN "w" ELSE IF ph' = "read" THEN "r" ELSE IF ph' = "list" THEN "l" ELSE "s")
        /\ wops' = (IF ph = "start" THEN ops' ELSE wops)
        /\ i' = 0
        /\ r' = Reader0 /\ rs' = <<>> /\ us' = <<>>
        /\ UNCHANGED <<sc, w, em>>
Next == Step \/ Turn
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* C13: every mirrored read succeeds and returns what was written
Mirrored == (ph = "read" /\ i > 0) => LET x == rs[i] IN x[1] = OK /\ SubSeq(x, 4, Len(x)) = Mirror(wops[i])
\* no call is refused, reads and skips end exactly at the end
NotStuck == (i < Len(ops) /\ ph \in {"read", "list", "skip"}) => ROp(w.out, r, ops[i + 1]).s = OK
AtEnd == (ph \in {"read", "list", "skip"} /\ i = Len(ops)) => r.pos = Len(w.out)
\* C12: numbering is back at the start between values, on either side
Fresh == (i = Len(ops)) => w.last = 0 /\ w.stk = <<>> /\ w.pend = NOPEND /\ r.last = 0 /\ r.stk = <<>> /\ r.pend = 0
RECURSIVE AfterCall(_)
AfterCall(k) == IF k = 0 THEN Reader0 ELSE ROp(w.out, AfterCall(k - 1), ops[k]).r
\* C08: under every limit the machine does what the charges say
Cumulative == (Family = "charges" /\ ph \in {"read", "skip"} /\ i = Len(ops) /\ i > 0) =>
                 \A k \in 1..Len(ops) : us[k] > (IF k = 1 THEN 0 ELSE us[k - 1]) =>
                   LET before == IF k = 1 THEN NewReader(us[k] - 1) ELSE [AfterCall(k - 1) EXCEPT !.rem = us[k] - 1 - us[k - 1]]
                   IN ROp(w.out, before, ops[k]).s = P_SIZE
\* C10
RECURSIVE Sum(_, _)
Sum(e, k) == IF k > Len(e) THEN 0 ELSE e[k] + Sum(e, k + 1)
Counted1 == (ph = "write" /\ i = Len(ops)) => Sum(em, 1) = BytesLen(w.out)
=============================================================================
