------------------------------- MODULE MC_Tape -------------------------------
(* Metadata values, application errors and skipped content over a protocol that is nothing   *)
(* but a tape of calls: written onto it call by call, and read from it call by call.  The    *)
(* protocol may fail at any call; nothing more is asked of it then.                          *)
EXTENDS Tape

CONSTANT Thorough

SKIPPED == 98
Structs == TypeIds \ UnionIds

\* as other implementations may send a value: unknown fields, other orders, repetitions
Tree == {<<1, 1>>, <<3, W(-3)>>, <<4, W(300)>>, <<5, W(70000)>>, <<6, Bit(40)>>, <<7, <<1, 2, 3, 4, 5, 6, 7, 8>> >>, <<8, 0, <<255, 0>> >>, <<8, 0, <<>> >>,
         <<9, 5, <<<<5, W(1)>>, <<5, W(2)>>>> >>, <<9, 12, <<<<12, <<>> >>, <<12, <<<<1, <<1, 0>>>>>> >>>> >>, <<10, 1, <<<<1, 1>>, <<1, 0>>, <<1, 1>>>> >>,
         <<9, 9, <<<<9, 3, <<>> >>, <<9, 3, <<<<3, W(1)>>>> >>>> >>, <<11, 8, 1, << <<<<8, 0, <<97>> >>, <<1, 1>>>>, <<<<8, 0, <<98>> >>, <<1, 0>>>> >> >>,
         <<11, -1, -1, <<>> >>, <<11, 12, 11, << <<<<12, <<<<2, <<5, W(1)>>>>>> >>, <<11, 1, 1, << <<<<1, 1>>, <<1, 1>>>> >> >>>> >> >>,
         <<12, <<<<1, <<5, W(7)>>>>, <<2, <<12, <<<<1, <<1, 1>>>>, <<9, <<9, 8, <<<<8, 0, <<1>> >>>> >>>>>> >>>>, <<-4, <<10, 6, <<>> >>>>>> >>}
Ins(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Unk(id, u) == <<id, -u[1], u>>
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
MaxId(t) == LET fs == FieldsOf(t) IN IF fs = <<>> THEN 0 ELSE fs[Len(fs)][1]

\* <<type, value, as it is on the tape>>
Whole == {<<t, V(t, g), V(t, g)>> : t \in TypeIds, g \in 0..3} \cup {<<t, FullV(t, g, d), FullV(t, g, d)>> : t \in TypeIds, g \in 0..1, d \in 1..(IF Thorough THEN 5 ELSE 3)}
         \cup {<<t, W(n), W(n)>> : t \in EnumIds, n \in {0, 1, -1, 3, 300}}
Fields == UNION {UNION {{<<t, WithField(t, i, v), WithField(t, i, v)>> : v \in {x \in PaletteS(FieldsOf(t)[i][2]) : ~Compact(FieldsOf(t)[i][2], x)}}
                        : i \in DOMAIN FieldsOf(t)} : t \in Structs}
          \cup UNION {{<<t, v, v>> : v \in PalU(t, 1)} : t \in UnionIds}
OptIx(t) == {i \in 1..Len(FieldsOf(t)) : FieldsOf(t)[i][3] = 0}
Subsets(t) == {WithFields(t, S, 1, 1) : S \in {X \in SUBSET OptIx(t) : Thorough \/ Cardinality(X) <= 2 \/ Cardinality(X) + 2 >= Cardinality(OptIx(t))}}
Present == UNION {{<<t, v, v>> : v \in Subsets(t)} : t \in Structs}
Others ==
  UNION {UNION {{<<t, v, Ins(v, p, Unk(i, u))>> : p \in {0, Len(v) \div 2, Len(v)}, i \in {MaxId(t) + 1, -1, 0, 32767}, u \in Tree} : v \in {V(t, 1)}} : t \in Structs}
  \cup UNION {UNION {{<<t, v, Ins(v, p, Unk(MaxId(t) + 2, u))>> : p \in 0..Len(v), u \in {<<5, W(1)>>, <<12, <<<<1, <<1, 1>>>>>> >>}} : v \in {FullV(t, 1, 1)}} : t \in Structs}
  \cup {<<t, FullV(t, 2, 2), Rev(FullV(t, 2, 2))>> : t \in Structs}
  \cup UNION {UNION {{<<t, v, Ins(v, 0, <<v[i][1], FullV(FieldsOf(t)[FieldIx(t, v[i][1])][2], 5, 1)>>)>> : i \in DOMAIN v} : v \in {FullV(t, 1, 1)}} : t \in Structs}
None == <<<<-1, <<>> >>>>
Lacking ==
  UNION {{<<t, None, Cut(V(t, 1), i)>> : i \in DOMAIN V(t, 1)} \cup (IF V(t, 1) # <<>> THEN {<<t, None, << <<MaxId(t) + 1, -12, <<12, <<>> >> >> >> >>} ELSE {}) : t \in Structs}
  \cup {<<t, None, <<>> >> : t \in UnionIds} \cup {<<t, None, V(t, g) \o V(t, h)>> : t \in UnionIds, g \in 0..2, h \in 0..2}
  \cup {<<t, None, <<Unk(99, <<5, W(1)>>)>> >> : t \in UnionIds} \cup {<<t, None, V(t, 0) \o <<Unk(99, <<5, W(1)>>)>> >> : t \in UnionIds}
\* the same inside something else
In(t, x) == {<<149, None, WithField(149, 2, <<0, <<V(119, 1), [V(119, 2) EXCEPT ![1] = <<10, x>>] \o V(119, 2)>> >>)>>}
Inside == UNION {In(118, v) : v \in {<<>>, V(118, 1) \o V(118, 2), << <<5, << <<1, W(1)>> >> >> >>, << <<7, << <<1, 1>>, <<2, <<>> >> >> >> >>}}
Apps == LET m(s) == <<1, Lit(s)>>
            k(n) == <<2, W(n)>>
            Ks == {0, 1, 6, 10, 11, -1, 70000}
        IN {<<m(s), k(n)>> : s \in {<<>>, <<97>>, <<206, 187>>}, n \in Ks} \cup {<<>>, <<m(<<98>>)>>} \cup {<<k(n)>> : n \in Ks} \cup {<<k(n), m(<<99>>)>> : n \in Ks}
           \cup {Ins(<<m(<<98>>), k(3)>>, p, Unk(i, u)) : p \in 0..2, i \in {3, -1, 0}, u \in Tree} \cup {<<m(<<98>>), k(3), m(<<99>>), k(4)>>}

Cases == Whole \cup Fields \cup Present \cup Others \cup Lacking \cup Inside \cup {<<APP, <<>>, x>> : x \in Apps}
\* <<wire type, levels>> and what is there
SkipTrees == Tree \cup {<<1, 0>>, <<12, <<>> >>, <<9, 1, <<>> >>}
Skips == {<<SKIPPED, <<IF u[1] = 8 THEN 8 ELSE u[1], d>>, u>> : u \in SkipTrees, d \in (-1..5) \cup {64, 127, -128}} \cup {<<SKIPPED, <<0, d>>, <<1, 1>> >> : d \in {0, 1, 64}}

VARIABLES sc, tape, ph, i, open, count, c
vars == <<sc, tape, ph, i, open, count, c>>

IsSkip == sc[1] = SKIPPED
Init == /\ sc \in Cases \cup Skips
        /\ tape = <<>> /\ ph = "value" /\ i = 0 /\ open = <<>> /\ count = 0
        /\ c = Cf(<<>>, RUN, <<>>)

\* the calls that write it, with the ids of some fields withheld from the reader
Write == /\ ph = "value"
         /\ \E w \in {IF IsSkip THEN Calls(sc[3], "w") ELSE TapeOf(sc[1], sc[3])} :
              \/ tape' = w
              \/ /\ ~IsSkip /\ (IF sc[1] = APP THEN \A j \in DOMAIN sc[3] : Len(sc[3][j]) = 2 ELSE sc[2] = sc[3]) /\ Len(w) < 40
                 /\ \E k \in DOMAIN w : w[k][1] = FIELD_BEGIN /\ tape' = [w EXCEPT ![k][2][2] = NOID]
         /\ ph' = "writing"
         /\ UNCHANGED <<sc, i, open, count, c>>
\* the k-th call is counted as k bytes
WriteCall == /\ ph = "writing" /\ i < Len(tape)
             /\ i' = i + 1 /\ count' = count + i'
             /\ open' = Nest(open, tape[i'][1])
             /\ UNCHANGED <<sc, tape, ph, c>>
Rewind == /\ ph = "writing" /\ i = Len(tape)
          /\ ph' = "reading" /\ i' = 0
          /\ c' = Turn(<<IF IsSkip THEN <<6, sc[2][1], sc[2][2]>> ELSE <<1, sc[1]>> >>)
          /\ UNCHANGED <<sc, tape, open, count>>
ReadCall == /\ ph = "reading" /\ c.s = RUN
            /\ i' = i + 1
            /\ c' = Answered(c.stk, tape[i'])
            /\ UNCHANGED <<sc, tape, ph, open, count>>

\* what an application error is read as
Last(fs, id, dflt) == LET S == {k \in DOMAIN fs : fs[k][1] = id} IN IF S = {} THEN dflt ELSE fs[CHOOSE k \in S : \A j \in S : j <= k][2]
KindOf(w) == IF w[1] <= 10 /\ \A k \in 2..8 : w[k] = 0 THEN w[1] ELSE 0
General == <<103, 101, 110, 101, 114, 97, 108, 32, 114, 101, 109, 111, 116, 101, 32, 101, 114, 114, 111, 114>>
FlatOf(v) == IF sc[1] = APP THEN <<KindOf(Last(v, 2, W(0)))>> \o Last(v, 1, Lit(General))[3] ELSE Flat(sc[1], v)

HasNoId == \E k \in DOMAIN tape : tape[k][1] = FIELD_BEGIN /\ tape[k][2][2] = NOID
Plain == ~IsSkip /\ ~HasNoId /\ (IF sc[1] = APP THEN [k \in DOMAIN sc[3] |-> sc[3][k][1]] = <<1, 2>> /\ KindOf(sc[3][2][2]) = sc[3][2][2][1] /\ sc[3][2][2] = W(sc[3][2][2][1])
                                 ELSE sc[2] = sc[3] /\ c.s = OK)
RECURSIVE Ops(_, _)
Ops(t, k) == IF k > Len(t) THEN <<>> ELSE <<t[k][1], Len(t[k][2])>> \o t[k][2] \o Ops(t, k + 1)
Done == ph = "reading" /\ c.s # RUN
Emit == /\ Done
        /\ LET f == IF IsSkip THEN sc[2] ELSE IF c.s = OK THEN FlatOf(c.v) ELSE <<>>
           IN PrintT(ToString(<<17, sc[1], c.s, i, IF Plain THEN 1 ELSE 0, count, Len(f)>> \o f \o <<Len(tape)>> \o Ops(tape, 1)))
        /\ ph' = "done"
        /\ UNCHANGED <<sc, tape, i, open, count, c>>

Next == Write \/ WriteCall \/ Rewind \/ ReadCall \/ Emit
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* every beginning has its end, on the way and in the end
Nested == /\ open # <<-1>>
          /\ ph \in {"reading", "done"} => open = <<>>
CountedAll == count = (IF ph = "writing" THEN (i * (i + 1)) \div 2 ELSE IF ph = "value" THEN 0 ELSE (Len(tape) * (Len(tape) + 1)) \div 2)
\* only what is there is asked for
Fits == ph = "reading" /\ c.s = RUN => i < Len(tape) /\ tape[i + 1][1] \in Asked(c.stk)
\* and all of it is read: the value that was written
Whole1 == /\ Done /\ c.s = OK => i = Len(tape)
          /\ Done /\ c.s = OK /\ ~IsSkip /\ sc[1] # APP => Flat(sc[1], c.v) = Flat(sc[1], sc[2])
          /\ Done /\ ~IsSkip /\ sc[1] # APP /\ sc[2] = sc[3] /\ ~HasNoId => c.s = OK
          /\ Done /\ HasNoId => c.s \in {P_UNKNOWN}
          /\ Done /\ IsSkip => c.s = (IF sc[2][1] = 0 /\ sc[2][2] > 0 THEN P_UNKNOWN ELSE IF sc[2][2] <= 0 THEN P_DEPTH ELSE c.s)
          /\ Done /\ sc \in Lacking => c.s \in {P_UNKNOWN, P_INVALID}
=============================================================================
