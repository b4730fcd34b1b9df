----------------------------- MODULE MC_Hostile -----------------------------
(* Hostile inputs far beyond the reach of exhaustive exploration: nesting hundreds of       *)
(* thousands deep, megabytes of minimal fields and elements, claims of gigabytes.           *)
(* A scenario is <<start, head, unit, small, large, tail, limit>>: the input is              *)
(* head \o unit^n \o tail.  The machine runs it for the small n, step by step, and settles  *)
(* the outcome; the code runs it for the large n.  Where the machine stops within the small *)
(* input its outcome is demanded of the code too, otherwise any value or error will do.     *)
EXTENDS Decodes, Api

ST(t) == <<VAL, <<t, 1>> >>
SK(t) == <<SKIP, <<t>> >>
SKD(t, d) == <<SKIPD, <<t, d>> >>
RL(t) == <<READ_LIST, <<t>> >>

\* wide and deep: <<wire type code, unit>> of containers of containers
Deeps == {<<9, <<25>> >>, <<10, <<26>> >>, <<12, <<28>> >>, <<12, <<12, 2>> >>, <<11, <<1, 187, 1, 85, 0, 0>> >>, <<11, <<1, 187>> >>,
          <<9, <<28, 25>> >>, <<12, <<25, 28>> >>, <<9, <<250, 1>> \o <<249, 1>> >>, <<9, <<233>> >>, <<12, <<27, 1, 92, 0>> >>}
\* an unknown field of the given wire type: long form, id -2
Field(c) == <<c, 3>>
DeepStarts(c) == {<<ST(t), Field(c)>> : t \in {101, 115, 118, 142, 149}} \cup {<<SK(c), <<>> >>}
                 \cup {<<SKD(c, d), <<>> >> : d \in {127, 64, 1, 0, -1, -128}} \cup {<<<<APPERR, <<>> >>, Field(c)>>}
                 \cup {<<RL(101), <<28>> \o Field(c)>>}
Large(u) == IF Len(u) = 1 THEN 400000 ELSE 8000
DeepNests == {<<st[1], st[2], x[2], 300, Large(x[2]), <<>>, l>> : st \in UNION {DeepStarts(c) : c \in {9, 10, 11, 12}}, x \in Deeps, l \in {-1, 1000000}}
Deep2 == {s \in DeepNests : LET c == IF s[1][1] \in {SKIP, SKIPD} THEN s[1][2][1] ELSE s[2][Len(s[2]) - 1]
                            IN \E x \in Deeps : x[1] = c /\ x[2] = s[3]}

\* megabytes of the smallest things
Wide ==
  \* unknown bool fields with id -1; with increasing ids
  {<<ST(t), <<>>, <<1, 1>>, 50, 2000, <<0>>, -1>> : t \in TypeIds}
  \cup {<<st, <<>>, <<u>>, 100, 1000000, <<0>>, -1>> : u \in {17, 18}, st \in {SK(12), ST(101), ST(149), <<APPERR, <<>> >>}}
  \cup {<<st, <<>>, <<1>>, 200, 2000000, <<0>>, -1>> : st \in {SK(12), ST(101), ST(133), ST(149), <<APPERR, <<>> >>}}
  \* continuation bytes
  \cup {<<st, h, <<b>>, 200, 1000000, <<0>>, -1>> : b \in {128, 255}, h \in {<<>>, <<21>>, <<5>>, <<24>>, <<25, 245>>, <<27>>}, st \in {ST(132), ST(149), SK(12), SK(11), SK(9), SK(8), SK(6)}}
  \* many elements of a byte each, claimed exactly
  \cup {<<st, <<240 + e, 128, 137, 122>>, <<b>>, 300, 2000000, <<>>, -1>>
        : e \in {1}, b \in {1, 2}, st \in {SK(9), SK(10), RL(1)}}
  \cup {<<st, <<240 + e, 128, 137, 122>>, <<0>>, 300, 2000000, <<>>, -1>> : e \in {3, 4, 5, 6, 8, 12, 11, 9}, st \in {SK(9), SK(10)}}
  \cup {<<RL(t), <<240 + WireOf(t), 128, 137, 122>>, <<0>>, 300, 2000000, <<>>, -1>> : t \in {3, 6, 8, 9, 101, 121, 141}}
  \cup {<<SK(11), <<128, 137, 122, 16 * k + e>>, <<0>>, 300, 4000000, <<>>, -1>> : k \in {3, 8, 12}, e \in {3, 4, 12}}
  \* a long string and what follows
  \cup {<<st, <<128, 137, 122>>, <<97>>, 300, 2000000, <<>>, -1>> : st \in {SK(8), <<TEXT, <<>> >>, <<BYTES, <<>> >>}}
  \cup {<<<<MSG_BEGIN, <<>> >>, <<130, 33, 0, 128, 137, 122>>, <<97>>, 300, 2000000, <<>>, -1>>}

\* claims without the bytes to back them, limit or none
ClaimStarts == {<<SK(8), <<>> >>, <<<<TEXT, <<>> >>, <<>> >>, <<<<BYTES, <<>> >>, <<>> >>, <<<<MSG_BEGIN, <<>> >>, <<130, 33, 0>> >>,
                <<<<APPERR, <<>> >>, <<24>> >>}
               \cup {<<SK(c), <<240 + e>> >> : c \in {9, 10}, e \in {1, 3, 5, 7, 8, 9, 11, 12}}
               \cup {<<RL(t), <<240 + WireOf(t)>> >> : t \in {1, 3, 6, 8, 9} \cup TypeIds}
               \cup {<<ST(101), <<c, 3, 240 + e>> >> : c \in {9, 10}, e \in {1, 8, 12}} \cup {<<ST(101), <<8, 3>> >>}
               \cup {<<ST(t), <<16 * FieldsOf(t)[i][1] + (IF IsList(FieldsOf(t)[i][2]) THEN 9 ELSE 8)>>
                              \o (IF IsList(FieldsOf(t)[i][2]) THEN <<240 + WireOf(ElemOf(FieldsOf(t)[i][2]))>> ELSE <<>>)>>
                     : <<t, i>> \in {p \in Structs \X (1..15) : p[2] <= Len(FieldsOf(p[1])) /\ (FieldsOf(p[1])[p[2]][2] \in {8, 9} \/ IsList(FieldsOf(p[1])[p[2]][2]))}}
ClaimedSizes == {<<255, 255, 255, 127>>, <<255, 255, 255, 255>>, <<0, 0, 0, 128>>, <<0, 0, 0, 32>>, <<1, 0, 0, 0>>, <<0, 0, 32, 0>>, <<255, 255, 255, 31>>, <<0, 0, 0, 8>>}
Claimed == {<<st[1], st[2] \o UVar(q \o <<0, 0, 0, 0>>) \o (IF st[1] = SK(11) THEN <<85>> ELSE <<>>), <<0>>, 0, 0, <<>>, l>>
            : st \in ClaimStarts \cup {<<SK(11), <<>> >>}, q \in ClaimedSizes, l \in {-1, 2147483647, 65536}}

Scenarios == Deep2 \cup Wide \cup Claimed

VARIABLES sc, inp, c, ph
vars == <<sc, inp, c, ph>>
Init == sc \in Scenarios /\ inp = <<>> /\ c = Cfg(NewReader(INF), <<>>, RUN, <<>>) /\ ph = "bytes"

\* skipping, and decoding of metadata, step by step; other calls are single steps
Begun == LET op == sc[1]
             r == NewReader(sc[7])
         IN CASE op[1] = VAL -> Start(inp, r, op[2][1])
              [] op[1] = READ_LIST -> Start(inp, r, 1000 + op[2][1])
              [] op[1] = SKIP -> StartSkip(inp, r, op[2][1], MAXSKIP)
              [] op[1] = SKIPD -> StartSkip(inp, r, op[2][1], op[2][2])
              [] OTHER -> LET x == ROp(inp, r, op) IN Cfg(x.r, <<>>, x.s, <<>>)

\* n copies of unit, as runs
Copies(u, n) == IF Len(u) = 1 THEN (IF n = 0 THEN <<>> ELSE <<Run(n, u[1])>>) ELSE Repeat(u, n)
ANSWER == 997
Emit(d) == LET op == sc[1]
               s == IF d.s = OK \/ d.s = T_EOF THEN ANSWER ELSE d.s
               big == sc[2] \o Copies(sc[3], sc[5]) \o sc[6]
           IN PrintT(ToString(IF op[1] = VAL THEN <<2, op[2][1], sc[7], s, 0, Len(big)>> \o big \o <<0>>
                              ELSE <<4, sc[7], Len(big)>> \o big \o <<1, op[1], Len(op[2])>> \o op[2] \o <<s, 0, 0>>))

Write == ph = "bytes" /\ inp' = sc[2] \o Repeat(sc[3], sc[4]) \o sc[6] /\ ph' = "open" /\ UNCHANGED <<sc, c>>
Begin == ph = "open" /\ c' = Begun /\ (c'.s # RUN => Emit(c')) /\ ph' = "read" /\ UNCHANGED <<sc, inp>>
Read == ph = "read" /\ c.s = RUN /\ c' = DStep(inp, c) /\ (c'.s # RUN => Emit(c')) /\ UNCHANGED <<sc, inp, ph>>
Next == Write \/ Begin \/ Read
Spec == Init /\ [][Next]_vars

Done == ph = "read" /\ c.s # RUN
\* skipping never goes beyond its depth, known types do not recurse: the control stack is bounded
Bounded == Len(c.k) <= 8 + 128
DepthHit == (Done /\ sc \in Deep2 /\ sc[1][1] # SKIPD) => c.s \in {P_DEPTH, P_SIZE}
=============================================================================
