------------------------------- MODULE MC_Enum -------------------------------
(* Enum values on their way between numbers, the enum types, the wire and structs: every    *)
(* hop keeps the number, known to the IDL or not.                                           *)
EXTENDS Values, Decoder, TLC

CONSTANT Thorough

PalAll(e) == PalEnum(e) \cup {SExt(v, 4) : v \in UNION {{Bit(j), Dec(Bit(j)), Neg(Bit(j)), Neg(Add(Bit(j), W(1)))} : j \in 0..31}}
             \cup {W(n) : n \in IF Thorough THEN -300..300 ELSE -40..70}

\* <<enum, number, struct, field index>>; struct 0: the enum on its own
OfType(e) == {<<t, i>> \in TypeIds \X (1..14) : i <= Len(FieldsOf(t)) /\ FieldsOf(t)[i][2] \in {e, 1000 + e}}
Scenarios == UNION {{<<e, v, 0, 0>> : v \in PalAll(e)} \cup {<<e, v, x[1], x[2]>> : v \in PalEnum(e) \cup {W(n) : n \in -3..30}, x \in OfType(e)} : e \in EnumIds}

VARIABLES sc, at, num, bytes, hops
vars == <<sc, at, num, bytes, hops>>

ASSUME \A e \in EnumIds : PrintT(ToString(<<7, e, Len(EnumOf(e))>> \o EnumOf(e)))
\* IDL numbers are distinct and ascending
ASSUME \A e \in EnumIds : \A i \in 1..(Len(EnumOf(e)) - 1) : EnumOf(e)[i] < EnumOf(e)[i + 1]

Init == sc \in Scenarios /\ at = "number" /\ num = sc[2] /\ bytes = <<>> /\ hops = 0

E == sc[1]
Whole == IF sc[3] = 0 THEN num
         ELSE IF IsList(FieldsOf(sc[3])[sc[4]][2]) THEN WithField(sc[3], sc[4], <<0, <<num, W(0), num>> >>)
         ELSE WithField(sc[3], sc[4], num)
Ty == IF sc[3] = 0 THEN E ELSE sc[3]

Wrap == at = "number" /\ at' = "enum" /\ UNCHANGED <<num, bytes>>
        /\ (hops = 0 /\ sc[3] = 0 => PrintT(ToString(<<8, E>> \o num)))
Unwrap == at = "enum" /\ at' = "number" /\ hops > 0 /\ UNCHANGED <<num, bytes>>
Write == /\ at = "enum" /\ at' = "wire" /\ UNCHANGED num
         /\ bytes' = Encode(Ty, Whole, CANON)
         /\ LET f == Flat(Ty, Whole)
            IN hops = 1 => PrintT(ToString(<<1, Ty, Cost(Ty, Whole), Len(f)>> \o f \o <<Len(bytes')>> \o bytes'))
\* the number as read back: the enum field of the decoded value
Find(f) == IF sc[3] = 0 THEN SubSeq(f, 2, 9)
           ELSE LET ft == FieldsOf(sc[3])[sc[4]][2]
                    want == <<FieldsOf(sc[3])[sc[4]][1]>> \o (IF IsList(ft) THEN <<5, 3>> ELSE <<>>) \o <<2>> \o num
                IN IF \E k \in 1..(Len(f) - Len(want) + 1) : SubSeq(f, k, k + Len(want) - 1) = want THEN num ELSE W(-99)
Read == /\ at = "wire" /\ at' = "enum"
        /\ LET d == Decode(bytes, NewReader(INF), Ty) IN d.s = OK /\ d.v = Flat(Ty, Whole) /\ num' = Find(d.v)
        /\ bytes' = <<>>
Next == hops < 5 /\ hops' = hops + 1 /\ UNCHANGED sc /\ (Wrap \/ Unwrap \/ Write \/ Read)
Spec == Init /\ [][Next]_vars

NumberKept == num = sc[2]
NeverStuck == at = "wire" => ENABLED Read \/ hops >= 5
=============================================================================
