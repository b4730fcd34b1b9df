------------------------------- MODULE Values -------------------------------
(* Families of metadata values: representatives of every type, and boundary palettes.      *)
EXTENDS Encoder, FiniteSets, TLC

----------------------------------------------------------------------------
(* Representative values: V is minimal (required fields only), distinct for distinct tags  *)

RECURSIVE V(_, _), VList(_, _, _), FullV(_, _, _)

Lit(s) == <<0, 0, s>>
Required(t) == SelectSeq(FieldsOf(t), LAMBDA f : f[3] = 1)
Optional(t) == SelectSeq(FieldsOf(t), LAMBDA f : f[3] = 0)

V(t, g) ==
  CASE t = 1 -> g % 2
    [] t = 3 -> SExt(<<(37 * g) % 256>>, 1)
    [] t = 4 -> W((g * 211) % 30000)
    [] t \in {5, 6} -> W(IF g % 2 = 0 THEN 7 * g + 3 ELSE -(7 * g + 3))
    [] t = 7 -> W(g)
    [] t = 8 -> Lit(<<g % 256, 255 - (g % 256)>>)
    [] t = 9 -> Lit(<<97 + (g % 26), 48 + ((g \div 26) % 10)>>)
    [] IsEnum(t) -> W(EnumOf(t)[(g % Len(EnumOf(t))) + 1])
    [] IsList(t) -> <<0, <<V(ElemOf(t), g), V(ElemOf(t), g + 1)>> >>
    [] IsUnion(t) -> LET f == FieldsOf(t)[(g % Len(FieldsOf(t))) + 1] IN << <<f[1], V(f[2], g + 1)>> >>
    [] IsStruct(t) -> [i \in 1..Len(Required(t)) |-> <<Required(t)[i][1], V(Required(t)[i][2], 2 * g + Required(t)[i][1])>>]

\* list of n elements with consecutive tags
VList(t, n, g) == <<0, [i \in 1..n |-> V(t, g + i)]>>

\* every field present, nested values likewise down to depth d
FullV(t, g, d) ==
  IF d = 0 THEN V(t, g)
  ELSE IF IsUnion(t) THEN LET f == FieldsOf(t)[(g % Len(FieldsOf(t))) + 1] IN << <<f[1], FullV(f[2], g + 1, d - 1)>> >>
  ELSE IF IsStruct(t) THEN LET fs == FieldsOf(t)
                           IN [i \in 1..Len(fs) |-> <<fs[i][1], FullV(fs[i][2], 2 * g + fs[i][1], d - 1)>>]
  ELSE IF IsList(t) THEN <<0, <<FullV(ElemOf(t), g, d - 1), FullV(ElemOf(t), g + 1, d - 1)>> >>
  ELSE V(t, g)

----------------------------------------------------------------------------
(* Boundary palettes *)

Around(k) == {Bit(k), Dec(Bit(k)), Neg(Bit(k)), Dec(Neg(Bit(k)))}
\* zigzag varints of n bytes begin at magnitude 2^(7(n-1)-1)
Pal64 == {W(0), W(1), W(-1), W(2), Bit(63), Not(Bit(63)), Add(Bit(63), W(1)), Bit(32), Neg(Bit(32))}
         \cup UNION {Around(7 * n - 1) : n \in 1..8} \cup UNION {Around(k) : k \in {8, 15, 16, 31, 48}}
Pal32 == {W(0), W(1), W(-1), W(2), W(100), SExt(Bit(31), 4), SExt(Dec(Bit(31)), 4), SExt(Add(Bit(31), W(1)), 4)}
         \cup UNION {Around(7 * n - 1) : n \in 1..4} \cup UNION {Around(k) : k \in {8, 15, 16, 30}}
Pal16 == {W(0), W(1), W(-1), W(32767), W(-32768), W(-32767)} \cup UNION {Around(7 * n - 1) : n \in 1..2} \cup Around(8)
Pal8 == {SExt(<<b>>, 1) : b \in 0..255}
PalEnum(t) == {W(EnumOf(t)[i]) : i \in 1..Len(EnumOf(t))}
              \cup {W(n) : n \in -2..(EnumOf(t)[Len(EnumOf(t))] + 3)} \cup Pal32

Utf8Samples == {Lit(<<>>), Lit(<<97>>), Lit(<<0>>), Lit(<<127>>), Lit(<<194, 128>>), Lit(<<223, 191>>),
                Lit(<<224, 160, 128>>), Lit(<<237, 159, 191>>), Lit(<<238, 128, 128>>), Lit(<<239, 191, 191>>),
                Lit(<<240, 144, 128, 128>>), Lit(<<244, 143, 191, 191>>),
                Lit(<<97, 206, 187, 226, 130, 172, 240, 159, 166, 128, 98>>),
                Lit([i \in 1..127 |-> 64 + (i % 60)]), Lit([i \in 1..128 |-> 64 + (i % 60)]), Lit([i \in 1..300 |-> 64 + (i % 60)])}
BinSamples == {Lit(<<>>), Lit(<<0>>), Lit(<<255>>), Lit(<<128, 128>>), Lit(<<237, 160, 128>>), Lit([i \in 1..256 |-> i - 1]),
               Lit([i \in 1..127 |-> 255]), Lit([i \in 1..128 |-> 254])}
BigLens == {129, 16383, 16384, 65535, 65536}
PalString == Utf8Samples \cup {<<n, 97, <<>> >> : n \in BigLens}
PalBinary == BinSamples \cup {<<n, 200, <<>> >> : n \in BigLens}

ListLens == {0, 1, 2, 3, 13, 14, 15, 16, 17, 127, 128, 129}
PalList(t) == {VList(ElemOf(t), n, 5) : n \in ListLens}
              \cup (IF IsStruct(ElemOf(t)) THEN {<<0, <<FullV(ElemOf(t), 3, 2), FullV(ElemOf(t), 4, 1), V(ElemOf(t), 5)>> >>} ELSE {})
              \cup (IF ElemOf(t) = 1 THEN {<<0, <<1, 1, 0, 0, 1>> >>} ELSE {})
              \cup (IF ElemOf(t) \in {8, 9} THEN {<<0, <<Lit(<<>>), Lit([i \in 1..200 |-> 65 + (i % 20)]), Lit(<<98>>)>> >>} ELSE {})
BigLists(t) == {<<n, <<V(ElemOf(t), 4)>> >> : n \in {300, 16383, 16384}}

RECURSIVE PalU(_, _)
PalU(t, i) == IF i > Len(FieldsOf(t)) THEN {}
              ELSE LET f == FieldsOf(t)[i]
                   IN {<< <<f[1], V(f[2], g)>> >> : g \in 0..3} \cup {<< <<f[1], FullV(f[2], 1, 2)>> >>} \cup PalU(t, i + 1)

Palette(t) == CASE t = 1 -> {0, 1}
                [] t = 3 -> Pal8
                [] t = 4 -> Pal16
                [] t = 5 -> Pal32
                [] t = 6 -> Pal64
                [] t = 8 -> PalBinary
                [] t = 9 -> PalString
                [] IsEnum(t) -> PalEnum(t)
                [] IsList(t) -> PalList(t) \cup BigLists(t)
                [] IsUnion(t) -> PalU(t, 1)
                [] IsStruct(t) -> {V(t, 0), V(t, 1), FullV(t, 1, 1), FullV(t, 2, 3)}

\* as Palette, without the contents too large to be decoded byte by byte here
PaletteS(t) == CASE t = 9 -> Utf8Samples
                 [] t = 8 -> BinSamples
                 [] t = 3 -> {W(0), W(-128), W(127)}
                 [] IsList(t) -> PalList(t)
                 [] OTHER -> Palette(t)

\* struct with the given subset of field positions present (required ones always)
WithFields(t, S, g, d) ==
  LET ix == SelectSeq([i \in 1..Len(FieldsOf(t)) |-> i], LAMBDA i : i \in S \/ FieldsOf(t)[i][3] = 1)
  IN [j \in 1..Len(ix) |-> <<FieldsOf(t)[ix[j]][1], FullV(FieldsOf(t)[ix[j]][2], 2 * g + ix[j], d)>>]
\* struct with field i holding v, others required only
WithField(t, i, v) ==
  LET ix == SelectSeq([k \in 1..Len(FieldsOf(t)) |-> k], LAMBDA k : k = i \/ FieldsOf(t)[k][3] = 1)
  IN [j \in 1..Len(ix) |-> <<FieldsOf(t)[ix[j]][1], IF ix[j] = i THEN v ELSE V(FieldsOf(t)[ix[j]][2], ix[j])>>]

\* does the value use the compact forms for large contents?
RECURSIVE Compact(_, _)
Compact(t, v) == CASE t \in {8, 9} -> v[1] > 0
                   [] IsList(t) -> v[1] > 0 \/ \E i \in DOMAIN v[2] : Compact(ElemOf(t), v[2][i])
                   [] IsStruct(t) -> \E i \in DOMAIN v : Compact(FieldsOf(t)[FieldIx(t, v[i][1])][2], v[i][2])
                   [] OTHER -> FALSE
HasRun(s) == \E i \in DOMAIN s : s[i] < 0
=============================================================================
