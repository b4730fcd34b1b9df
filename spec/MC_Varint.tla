------------------------------ MODULE MC_Varint ------------------------------
(* Variable-length integers, group by group: encoding and decoding machines for every       *)
(* width (1, 2, 4, 8 bytes) and signedness, against the closed forms of module Wire.        *)
EXTENDS Wire, FiniteSets, TLC

CONSTANTS Family, Thorough

Kinds == {<<k, s>> : k \in {1, 2, 4, 8}, s \in 0..1}

\* the number n as a value of kind x (n given as a word)
Fit(x, v) == IF x[2] = 1 THEN SExt(v, x[1]) ELSE ZExt(v, x[1])
\* the unsigned word that is encoded
Raw(x, v) == IF x[2] = 1 THEN Zig(v) ELSE v
\* the value of kind x an unsigned word denotes, and whether the word is in range
Val(x, u) == IF x[2] = 1 THEN UnZig(u) ELSE u
InRange(x, u) == Val(x, u) = Fit(x, Val(x, u))

Powers(k) == UNION {{Bit(j), Dec(Bit(j)), Add(Bit(j), W(1)), Neg(Bit(j)), Neg(Add(Bit(j), W(1))), Dec(Dec(Bit(j)))} : j \in 0..(8 * k - 1)}
\* one and two bits set, and all-ones runs: every group boundary from either side
Pairs(k) == {Add(Bit(i), Bit(j)) : i \in 0..(8 * k - 1), j \in 0..(8 * k - 1)}
Runs(k) == {Add(Bit(i), Neg(Bit(j))) : i \in 0..(8 * k - 1), j \in 0..(8 * k - 1)}
Dense(x) == IF x[1] = 1 THEN 0..255 ELSE IF x[1] = 2 THEN 0..65535 ELSE -300..300
Palette(x) == {Fit(x, v) : v \in Powers(x[1]) \cup {W(n) : n \in -130..130} \cup (IF x[1] > 2 THEN Pairs(x[1]) \cup Runs(x[1]) ELSE {})}

\* byte strings that are not encodings of anything in particular
Edge == {0, 1, 2, 127, 128, 129, 255}
UpTo(A, n) == UNION {[1..i -> A] : i \in 0..n}
Strings == UpTo(Edge, IF Thorough THEN 4 ELSE 3) \cup {<<b>> : b \in 0..255} \cup {<<b, c>> : b \in 0..255, c \in Edge}
           \cup UNION {{[i \in 1..n |-> IF i < n THEN c ELSE e] : c \in {128, 129, 255}, e \in {0, 1, 127, 128, 255}} : n \in 1..14}
           \cup UNION {{[i \in 1..(n + 1) |-> IF i < n THEN 128 ELSE IF i = n THEN e ELSE 77] : e \in {0, 1, 5, 127}} : n \in 1..12}

Scenarios == CASE Family = "palette" -> UNION {{<<x, v, 1>> : v \in Palette(x)} : x \in Kinds}
               [] Family = "strings" -> {<<x, s, 2>> : x \in Kinds, s \in Strings}

VARIABLES sc, ph, u, out, inp, n, acc, res
vars == <<sc, ph, u, out, inp, n, acc, res>>

X == sc[1]
Zero == W(0)

Init == /\ IF Family = "dense" THEN \E x \in Kinds : \E k \in Dense(x) : sc = <<x, Fit(x, W(k)), IF Thorough \/ k < 300 THEN 1 ELSE 0>>
           ELSE sc \in Scenarios
        /\ ph = (IF sc[3] = 2 THEN "decode" ELSE "encode")
        /\ u = (IF sc[3] = 2 THEN Zero ELSE Raw(sc[1], sc[2]))
        /\ inp = (IF sc[3] = 2 THEN sc[2] ELSE <<>>)
        /\ out = <<>> /\ n = 0 /\ acc = Zero /\ res = "none"

----------------------------------------------------------------------------
(* Encoding: emit the low group until fewer than 8 bits are left *)

Small(w) == w[1] < 128 /\ \A i \in 2..8 : w[i] = 0
Shr7(w) == [i \in 1..8 |-> (w[i] \div 128) + (IF i < 8 THEN (w[i + 1] * 2) % 256 ELSE 0)]
EmitE(bytes) == PrintT(ToString(<<5, X[1], X[2]>> \o sc[2] \o <<Len(bytes)>> \o bytes))

Encode == /\ ph = "encode"
          /\ IF Small(u)
             THEN /\ out' = Append(out, u[1])
                  /\ ph' = "encoded"
                  /\ EmitE(out')
                  /\ UNCHANGED u
             ELSE /\ out' = Append(out, 128 + (u[1] % 128))
                  /\ u' = Shr7(u)
                  /\ UNCHANGED ph
          /\ UNCHANGED <<sc, inp, n, acc, res>>

\* choose how much redundant padding the reader sees, and whether bytes follow
Pads == IF sc[3] = 1 THEN 0..(VarMax(X[1]) - Len(out)) ELSE {0}
Pad == /\ ph = "encoded"
       /\ \E p \in Pads : inp' = UVarP(Raw(X, sc[2]), p) \o (IF p % 2 = 1 THEN <<170>> ELSE <<>>)
       /\ ph' = "decode"
       /\ UNCHANGED <<sc, u, out, n, acc, res>>

----------------------------------------------------------------------------
(* Decoding: accumulate groups until a byte without the continuation bit *)

ShlAdd(a, g, k) ==      \* a + g * 2^(7k), bits beyond 64 dropped
  [j \in 1..8 |-> LET lo == 8 * (j - 1)
                      s == 7 * k - lo                     \* position of the group relative to byte j
                  IN IF s >= 8 \/ s <= -7 THEN a[j]
                     ELSE IF s >= 0 THEN a[j] + ((g * Pow2[s + 1]) % 256)
                     ELSE a[j] + (g \div Pow2[-s + 1])]

Judged == InRange(X, VarWord(SubSeq(inp, 1, n))) /\ (n < 10 \/ inp[10] <= 1)
EmitD(status, m, v) ==
  PrintT(ToString(<<6, X[1], X[2], status, m>> \o v
                  \o <<IF X[1] = 8 \/ status = 1 THEN 1 ELSE IF status = 0 THEN 1 ELSE 0>> \o <<Len(inp)>> \o inp))

Decode == /\ ph = "decode" /\ res = "none"
          /\ IF n >= Len(inp) THEN res' = "eof" /\ EmitD(1, 0, Zero) /\ UNCHANGED <<n, acc>>
             ELSE IF n >= VarMax(X[1]) THEN res' = "toolong" /\ EmitD(2, 0, Zero) /\ UNCHANGED <<n, acc>>
             ELSE LET b == inp[n + 1]
                      a == ShlAdd(acc, b % 128, n)
                      ok == InRange(X, a) /\ (n + 1 < 10 \/ b <= 1)
                  IN /\ n' = n + 1
                     /\ acc' = a
                     /\ IF b >= 128 THEN UNCHANGED res
                        ELSE /\ res' = (IF ok THEN "ok" ELSE "overflow")
                             /\ (ok => EmitD(0, n + 1, Val(X, a)))
          /\ UNCHANGED <<sc, ph, u, out, inp>>

Next == Encode \/ Pad \/ Decode
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the machine emits exactly the closed form, of the closed form's length, and it is minimal
EncodeRight == ph = "encoded" => out = UVar(Raw(X, sc[2])) /\ Len(out) = VarLen(Raw(X, sc[2])) /\ Len(out) <= VarMax(X[1])
Minimal == ph = "encoded" => Len(out) = 1 \/ out[Len(out)] # 0
\* what was encoded, padded or not, is read back
DecodeRight == (ph = "decode" /\ sc[3] # 2) => res \in {"none", "ok"} /\ (res = "ok" => Val(X, acc) = sc[2])
\* the accumulator is the closed form
AccRight == acc = VarWord(SubSeq(inp, 1, n))
\* a result uses exactly the bytes up to and including the first without continuation
Consumed == res = "ok" => inp[n] < 128 /\ \A i \in 1..(n - 1) : inp[i] >= 128
EofRight == res = "eof" => \A i \in 1..Len(inp) : inp[i] >= 128
=============================================================================
