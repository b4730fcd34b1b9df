------------------------------ MODULE MC_Decode ------------------------------
(* Reading the encodings of module Decodes step by step, against the demanded outcome.     *)
EXTENDS Decodes, Decoder, TLC

CONSTANT Family

Scenarios == CASE Family = "variants" -> Variants
               [] Family = "unknown" -> Unknowns
               [] Family = "incomplete" -> Incompletes
               [] Family = "malformed" -> Malformed
               [] Family = "huge" -> UNION {Huge(t) : t \in Structs}
               [] Family = "charged" -> Charged

VARIABLES sc, inp, c, ph
vars == <<sc, inp, c, ph>>

Tail4 == <<25, 130, 0, 255>>     \* bytes after the value, not to be touched
BIG == 1000000

Idle == Cfg(NewReader(INF), <<>>, RUN, <<>>)
Init == sc \in Scenarios /\ inp = <<>> /\ c = Idle /\ ph = "bytes"

Line(ty, lim, s, p, bytes, f) == PrintT(ToString(<<2, ty, lim, s, p, Len(bytes)>> \o bytes \o <<Len(f)>> \o f))

\* what the harness is told: the demanded status, and for a success the demanded value
Emit(d) ==
  LET t == sc[1] IN
  IF Family = "charged"
  THEN LET used == BIG - d.r.rem
           f == Flat(t, sc[2])
       IN /\ \A k \in {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, used \div 2} : used - k >= 0 =>
                IF k = 0 THEN Line(t, used, OK, Len(inp) - 4, inp, f) /\ Line(t, used + 1, OK, Len(inp) - 4, inp, f)
                ELSE Line(t, used - k, P_SIZE, 0, inp, <<>>)
          /\ Line(t, 0, P_SIZE, 0, inp, <<>>)
  ELSE Line(t, sc[4], sc[5], d.r.pos, inp, IF sc[5] = OK THEN Flat(t, sc[2]) ELSE <<>>)

Done == ph = "read" /\ c.s # RUN
Write == /\ ph = "bytes"
         /\ inp' = Encode(sc[1], sc[2], sc[3]) \o Tail4
         /\ ph' = "open"
         /\ UNCHANGED <<sc, c>>
Begin == /\ ph = "open"
         /\ c' = Start(inp, NewReader(IF Family = "charged" THEN BIG ELSE sc[4]), sc[1])
         /\ (c'.s # RUN => Emit(c'))
         /\ ph' = "read"
         /\ UNCHANGED <<sc, inp>>
Read == /\ ph = "read" /\ c.s = RUN
        /\ c' = DStep(inp, c)
        /\ (c'.s # RUN => Emit(c'))
        /\ UNCHANGED <<sc, inp, ph>>
Next == Write \/ Begin \/ Read
Spec == Init /\ [][Next]_vars

Demanded == Done => IF sc[5] = ANYPROT THEN c.s \in 200..299 ELSE c.s = sc[5]
RightValue == (Done /\ c.s = OK) => c.v = Flat(sc[1], sc[2]) /\ c.r.pos = Len(inp) - Len(Tail4) /\ c.r.last = 0 /\ c.r.stk = <<>>
BudgetExact == (Done /\ c.s = OK /\ Family = "variants") => c.r.rem = 0
InBounds == c.r.pos <= Len(inp) /\ c.r.rem >= INF
\* C08: exactly the limits below the charge fail, and they fail with SizeLimit
Limits == (Done /\ Family = "charged") =>
             LET used == BIG - c.r.rem
             IN \A l \in {0, used - 1, used \div 2, used - 8, used - 2} :
                   l >= 0 /\ l < used => Decode(inp, NewReader(l), sc[1]).s = P_SIZE
LimitsOk == (Done /\ Family = "charged") => Decode(inp, NewReader(BIG - c.r.rem), sc[1]).s = OK
\* C06: no proper prefix is a value (short encodings)
NoPrefix == (Done /\ c.s = OK /\ Family = "variants" /\ Len(inp) <= 24) =>
               \A k \in 0..(Len(inp) - Len(Tail4) - 1) : Decode(SubSeq(inp, 1, k), NewReader(INF), sc[1]).s = T_EOF
=============================================================================
