------------------------------ MODULE MC_Schema ------------------------------
(* Write a value, then read it back, step by step: every metadata type, every field with   *)
(* its boundary palette, every subset of optional fields, full values.                     *)
EXTENDS Values, Decoder, TLC

CONSTANTS Family,      \* "all", or "large": contents of up to megabytes
          Thorough

Structs == TypeIds \ UnionIds

One(t) == UNION {{<<t, WithField(t, i, v)>> : v \in Palette(FieldsOf(t)[i][2])} : i \in 1..Len(FieldsOf(t))}
OptIx(t) == {i \in 1..Len(FieldsOf(t)) : FieldsOf(t)[i][3] = 0}
Subsets(t) == {<<t, WithFields(t, S, g, 1)>> : S \in SUBSET OptIx(t), g \in IF Thorough THEN 0..3 ELSE {1}}
Whole(t) == {<<t, V(t, g)>> : g \in 0..3} \cup {<<t, FullV(t, g, d)>> : g \in IF Thorough THEN 0..9 ELSE 0..2, d \in 1..5}
All == UNION ({One(t) \cup Subsets(t) : t \in Structs} \cup {{<<t, v>> : v \in PalU(t, 1)} : t \in UnionIds}
                    \cup {Whole(t) : t \in TypeIds})
             \cup {<<t, v>> : t \in EnumIds, v \in {W(0), W(1), W(-1), W(7), W(300)}}

\* strings and lists around the sizes where lengths take another byte and buffers are split
Lens == {65537, 98304, 100000, 131071, 131073, 262144, 1048577, 2097151, 2097152} \cup (IF Thorough THEN {4194303, 8388608, 8388609} ELSE {})
Large ==
  {<<132, <<<<1, <<n, 97, <<>> >> >>>> >> : n \in Lens} \cup {<<132, <<<<1, <<n, 97, <<>> >> >>, <<2, <<m, 98, <<>> >> >>>> >> : n \in {65537, 100001}, m \in {65537, 131073}}
  \cup {<<100, <<<<i, <<n, 255, <<>> >> >>>> >> : n \in Lens, i \in {1, 2, 5, 6}}
  \cup {<<119, WithField(119, 4, <<n, 122, <<>> >>)>> : n \in {65537, 100000}} \cup {<<149, WithField(149, 6, <<n, 65, <<>> >>)>> : n \in {65537, 1048577}}
  \cup {<<137, <<<<1, <<0, <<<<70000, 97, <<>> >>, Lit(<<98>>), <<n, 99, <<>> >> >> >> >>, <<2, <<n, 128, <<>> >> >>>> >> : n \in {70001, 131072}}
  \cup {<<145, WithField(145, i, <<n, <<V(ElemOf(FieldsOf(145)[i][2]), 5)>> >>)>> : i \in {1, 2, 5}, n \in {65535, 65536, 100000, 131072}}
  \cup {<<144, <<<<1, <<n, <<V(143, 3)>> >> >>>> >> : n \in {32768, 65537}}
Scenarios == CASE Family = "all" -> All [] Family = "large" -> Large

VARIABLES t, v, inp, c, ph
vars == <<t, v, inp, c, ph>>

Idle == Cfg(NewReader(INF), <<>>, RUN, <<>>)

Init == \E sc \in Scenarios : t = sc[1] /\ v = sc[2] /\ inp = <<>> /\ c = Idle /\ ph = "value"

Line(bytes) == LET f == Flat(t, v) IN <<1, t, Cost(t, v), Len(f)>> \o f \o <<Len(bytes)>> \o bytes

\* the value is written; contents given as runs are too large to be read back byte by byte here
Write == /\ ph = "value"
         /\ inp' = Encode(t, v, CANON)
         /\ PrintT(ToString(Line(inp')))
         /\ ph' = IF Compact(t, v) THEN "large" ELSE "open"
         /\ UNCHANGED <<t, v, c>>
\* the reader gets exactly the value's charge as its limit
Begin == /\ ph = "open"
         /\ c' = Start(inp, NewReader(Cost(t, v)), t)
         /\ ph' = "read"
         /\ UNCHANGED <<t, v, inp>>
Read == /\ ph = "read" /\ c.s = RUN
        /\ c' = DStep(inp, c)
        /\ UNCHANGED <<t, v, inp, ph>>
Next == Write \/ Begin \/ Read
Spec == Init /\ [][Next]_vars

\* C01: a completed read returns the value, used every byte and exactly the budget
RoundTrip == (ph = "read" /\ c.s # RUN) => c.s = OK /\ c.v = Flat(t, v) /\ c.r.pos = Len(inp) /\ c.r.rem = 0 /\ c.r.last = 0
\* the reader never leaves the input or overdraws the budget
InBounds == c.r.pos <= Len(inp) /\ (c.r.rem >= 0 \/ ph # "read")
=============================================================================
