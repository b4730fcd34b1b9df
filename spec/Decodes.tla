------------------------------- MODULE Decodes -------------------------------
(* Families of encodings with the outcome the properties demand, independent of the        *)
(* decoder: a scenario is <<type, value, style, limit, wanted status>>; when OK is wanted,  *)
(* the wanted value is Flat(type, value) (unknown fields dropped, last repetition wins).   *)
EXTENDS Values, TLC

CONSTANT Thorough

Structs == TypeIds \ UnionIds
ANYPROT == 299       \* some protocol error

Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
Rotate(s, k) == SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
SwapAt(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]

Sty(l, p, k) == [long |-> l, pad |-> p, llist |-> k]
Ok(t, v, st) == <<t, v, st, -1, OK>>
OkC(t, v, st) == <<t, v, st, Cost(t, v), OK>>
Err(t, v, s) == <<t, v, CANON, -1, s>>

Bases(t) == {V(t, 1), FullV(t, 1, 1), FullV(t, 2, 3)} \cup (IF Thorough THEN {FullV(t, g, d) : g \in 3..6, d \in 1..5} ELSE {})

----------------------------------------------------------------------------
(* C03: every permitted encoding *)

AllStyles == {Sty(l, p, k) : l \in 0..1, p \in {0, 1, 2, 3, 9}, k \in 0..1} \ {CANON}
Styles(t) == {OkC(t, v, st) : v \in Bases(t), st \in AllStyles}

Orders(v) == {Rev(v)} \cup {Rotate(v, k) : k \in 1..(Len(v) - 1)} \cup {SwapAt(v, i, i + 1) : i \in 1..(Len(v) - 1)}
             \cup {SwapAt(v, i, j) : i \in 1..Min(Len(v), 6), j \in 1..Min(Len(v), 6)}
             \cup (IF Len(v) <= 4 THEN {[i \in 1..Len(v) |-> v[p[i]]] : p \in Permutations(1..Len(v))} ELSE {})
Orderings(t) == {OkC(t, w, st) : w \in UNION {Orders(v) : v \in Bases(t)}, st \in {CANON, Sty(1, 0, 0)}}

\* fields reversed at every level
RECURSIVE RevAll(_, _)
RevAll(t, v) == IF IsStruct(t) THEN Rev([i \in 1..Len(v) |-> <<v[i][1], RevAll(FieldsOf(t)[FieldIx(t, v[i][1])][2], v[i][2])>>])
                ELSE IF IsList(t) THEN <<v[1], [i \in 1..Len(v[2]) |-> RevAll(ElemOf(t), v[2][i])]>>
                ELSE v
Deep(t) == {OkC(t, RevAll(t, v), st) : v \in Bases(t), st \in {CANON, Sty(1, 9, 1)}}

\* a field repeated: right before or after itself, at the far end, twice
Repeated(t) ==
  UNION {UNION {LET f == v[i]
                    ft == FieldsOf(t)[FieldIx(t, f[1])][2]
                    x == <<f[1], FullV(ft, 11 + i, 1)>>
                    y == <<f[1], V(ft, 14 + i)>>
                IN {OkC(t, Ins(v, p, x), CANON) : p \in {0, i - 1, i, Len(v)}}
                   \cup {OkC(t, Ins(Ins(v, i, x), 0, y), Sty(0, 1, 1)), OkC(t, Append(Ins(v, 0, x), y), CANON)}
                : i \in 1..Len(v)} : v \in Bases(t)}

\* every boundary value in its most verbose and in a slightly verbose form
Verbose(t) == UNION {{OkC(t, WithField(t, i, x), st) : x \in PaletteS(FieldsOf(t)[i][2]), st \in {Sty(1, 9, 1), Sty(0, 1, 0)}}
                     : i \in 1..Len(FieldsOf(t))}

Variants == UNION {Styles(t) \cup Deep(t) : t \in TypeIds} \cup UNION {Orderings(t) \cup Repeated(t) \cup Verbose(t) : t \in Structs}

----------------------------------------------------------------------------
(* Contents of unknown fields: <<wire type code, bytes>> *)

\* one element of each wire type
Elem(c) == CASE c = 1 -> <<1>>
             [] c = 2 -> <<2>>
             [] c = 3 -> <<128>>
             [] c = 4 -> <<255, 255, 3>>
             [] c = 5 -> <<200, 1>>
             [] c = 6 -> <<255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>
             [] c = 7 -> <<0, 15, 255, 128, 1, 2, 13, 127>>
             [] c = 8 -> <<3, 255, 254, 128>>
             [] c = 9 -> <<37, 2, 1>>
             [] c = 10 -> <<24, 1, 200>>
             [] c = 11 -> <<1, 133, 1, 97, 4>>
             [] c = 12 -> <<21, 2, 17, 18, 8, 2, 1, 65, 0>>
Coll(c, e, n) == <<c, (IF n <= 14 THEN <<16 * n + e>> ELSE <<240 + e>> \o UVar(W(n))) \o Repeat(Elem(e), n)>>
MapOf(k, e, n) == <<11, IF n = 0 THEN <<0>> ELSE UVar(W(n)) \o <<16 * k + e>> \o Repeat(Elem(k) \o Elem(e), n)>>
ElemCodes == {1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}

Plain == {<<c, Elem(c)>> : c \in 3..12} \cup {<<1, <<>> >>, <<2, <<>> >>}
Contents ==
  Plain \cup {<<3, <<0>> >>, <<4, <<0>> >>, <<5, <<0>> >>, <<5, <<255, 255, 255, 255, 15>> >>, <<6, <<1>> >>,
              <<6, <<128, 128, 0>> >>, <<8, <<0>> >>, <<8, <<128, 1>> \o [i \in 1..128 |-> i]>>, <<12, <<0>> >>,
              <<12, <<5, 255, 255, 3, 2, 0>> >>, <<12, <<21, 2, 21, 2, 5, 1, 7, 28, 28, 0, 17, 0, 18, 0>> >>}
  \cup {Coll(c, e, n) : c \in {9, 10}, e \in ElemCodes, n \in {0, 1, 2, 14, 15}}
  \cup {<<c, <<0>> >> : c \in {9, 10}} \cup {<<c, <<240 + e, 0>> >> : c \in {9, 10}, e \in {1, 8}}
  \cup {MapOf(k, e, n) : k \in ElemCodes, e \in ElemCodes, n \in 1..2} \cup {MapOf(8, 5, 0), MapOf(1, 1, 20), <<11, <<128, 0>> >>}

\* an unknown field with content u, under the given id
Unk(id, u) == <<id, -u[1], u[2]>>

MaxId(t) == LET fs == FieldsOf(t) IN IF fs = <<>> THEN 0 ELSE fs[Len(fs)][1]
Gaps(t) == {i \in 1..MaxId(t) : FieldIx(t, i) = 0}
UnkIds(t) == {MaxId(t) + 1, MaxId(t) + 2, MaxId(t) + 14, MaxId(t) + 15, MaxId(t) + 16, 0, -1, -32768, 100, 127, 128, 129, 255, 256, 257, 258,
              16384, 32767} \cup Gaps(t)
              \cup {256 + i : i \in 1..MaxId(t)} \cup {-i : i \in 1..MaxId(t)} \cup {-32768 + i : i \in 1..MaxId(t)}

Positions(t) == UNION {{Ok(t, Ins(v, p, Unk(MaxId(t) + 1, u)), CANON) : p \in 0..Len(v), u \in Plain} : v \in {V(t, 1), FullV(t, 1, 1)}}
Shapes(t) == {Ok(t, Ins(V(t, 1), Len(V(t, 1)) \div 2, Unk(MaxId(t) + 1, u)), CANON) : u \in Contents}
Ids(t) == {Ok(t, Ins(V(t, 1), p, Unk(i, u)), CANON)
           : p \in {0, Len(V(t, 1)) \div 2, Len(V(t, 1))}, i \in UnkIds(t), u \in {<<5, <<4>> >>, <<1, <<>> >>, <<8, <<1, 200>> >>, <<12, <<21, 2, 0>> >>}}
Several(t) == {Ok(t, Ins(Ins(Ins(V(t, 2), p, Unk(MaxId(t) + 3, u)), p, Unk(-5, w)), p, Unk(MaxId(t) + 1, u)), st)
               : p \in {0, Len(V(t, 2))}, u \in Plain, w \in {<<2, <<>> >>, <<9, <<25, 25, 5>> >>, <<11, <<1, 28, 1, 0>> >>}, st \in {CANON, Sty(1, 1, 1)}}
\* an unknown field first and last in every struct at every level
RECURSIVE InsAll(_, _, _)
InsAll(t, v, u) ==
  IF IsUnion(t) THEN << <<v[1][1], InsAll(FieldsOf(t)[FieldIx(t, v[1][1])][2], v[1][2], u)>> >>
  ELSE IF IsStruct(t) THEN <<Unk(MaxId(t) + 2, u)>>
                           \o [i \in 1..Len(v) |-> <<v[i][1], InsAll(FieldsOf(t)[FieldIx(t, v[i][1])][2], v[i][2], u)>>]
                           \o <<Unk(MaxId(t) + 1, u)>>
  ELSE IF IsList(t) THEN <<v[1], [i \in 1..Len(v[2]) |-> InsAll(ElemOf(t), v[2][i], u)]>>
  ELSE v
Everywhere(t) == {Ok(t, InsAll(t, v, u), CANON) : v \in {FullV(t, 1, 4), FullV(t, 2, 2)}, u \in Plain}

\* n containers around an i32, by kind: 9 list, 10 set, 12 struct, 11 map value, 13 map key, 14 alternating
RECURSIVE Chain(_, _)
Chain(k, n) ==
  LET code(j) == IF k = 13 THEN 11 ELSE IF k = 14 THEN <<9, 12, 11, 10>>[(j % 4) + 1] ELSE k
      in == IF n = 1 THEN 5 ELSE code(n - 1)
      body == IF n = 1 THEN <<4>> ELSE Chain(k, n - 1)
  IN CASE code(n) \in {9, 10} -> <<16 + in>> \o body
       [] code(n) = 12 -> <<16 + in>> \o body \o <<0>>
       [] code(n) = 11 -> IF k = 13 THEN <<1, 16 * in + 5>> \o body \o <<6>> ELSE <<1, 80 + in>> \o <<6>> \o body
ChainCode(k, n) == IF k = 13 THEN 11 ELSE IF k = 14 THEN <<9, 12, 11, 10>>[(n % 4) + 1] ELSE k
ChainKinds == {9, 10, 11, 12, 13, 14}
Depths == (1..4) \cup (30..34) \cup (60..66) \cup {70, 100, 126, 127, 128, 129, 200, 256, 257, 300}
\* the field's own level counts: 63 containers and the innermost scalar make 64
Nested(t) == {LET v == Ins(V(t, 1), Len(V(t, 1)) \div 2, Unk(MaxId(t) + 1, <<ChainCode(k, n), Chain(k, n)>>))
              IN IF n <= 63 THEN Ok(t, v, CANON) ELSE Err(t, v, P_DEPTH)
              : k \in ChainKinds, n \in Depths}

Unknowns == UNION {Positions(t) \cup Ids(t) \cup Everywhere(t) : t \in Structs}
            \cup UNION {Everywhere(t) : t \in UnionIds}
            \cup UNION {Shapes(t) : t \in IF Thorough THEN Structs ELSE {101, 115, 120, 132, 140}}
            \cup UNION {Several(t) : t \in IF Thorough THEN Structs ELSE {100, 119, 123, 135, 137, 139, 149}}
            \cup UNION {Nested(t) : t \in {101, 132, 146, 149}}

----------------------------------------------------------------------------
(* C05: a required field missing somewhere; unions with none, unknown or several alternatives *)

ReqIx(t, v) == {i \in 1..Len(v) : FieldsOf(t)[FieldIx(t, v[i][1])][3] = 1}
\* own required fields omitted: every subset when there are few, else one, two or all
OmitSets(S) == IF Cardinality(S) <= 5 THEN (SUBSET S) \ {{}} ELSE {{i, j} : i \in S, j \in S} \cup {S}
Without(v, S) == LET ix == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : i \notin S) IN [j \in 1..Len(ix) |-> v[ix[j]]]
Omitted(t) == UNION {{<<Without(v, S), P_UNKNOWN>> : S \in OmitSets(ReqIx(t, v))} : v \in {V(t, 1), FullV(t, 1, 1), FullV(t, 2, 2)}}

BadUnion(t) ==
  LET a == V(t, 1)[1]
      b == V(t, 2)[1]
      UnkU(u) == Unk(MaxId(t) + 1, u)
  IN {<< <<>>, P_INVALID>>, << <<a, b>>, P_INVALID>>, << <<a, a>>, P_INVALID>>, << <<b, a, b>>, P_INVALID>>}
     \cup {<< <<UnkU(u)>>, P_INVALID>> : u \in Plain} \cup {<< <<a, UnkU(u)>>, P_INVALID>> : u \in Plain}
     \cup {<< <<UnkU(u), a>>, P_INVALID>> : u \in Plain} \cup {<< <<UnkU(u), UnkU(u)>>, P_INVALID>> : u \in Plain}
     \cup {<< << <<f[1], FullV(f[2], 1, 2)>>, <<h[1], FullV(h[2], 1, 2)>> >>, P_INVALID>>
           : f \in {FieldsOf(t)[i] : i \in 1..Len(FieldsOf(t))}, h \in {FieldsOf(t)[i] : i \in 1..Len(FieldsOf(t))}}
     \cup {<< <<Unk(i, <<12, <<0>> >>)>>, P_INVALID>> : i \in UnkIds(t)}

\* values with one defect at depth up to d
RECURSIVE Defects(_, _)
Defects(t, d) ==
  (IF IsUnion(t) THEN BadUnion(t) ELSE IF IsStruct(t) THEN Omitted(t) ELSE {})
  \cup (IF d = 0 THEN {}
        ELSE IF IsList(t) THEN UNION {{<< <<0, <<x[1], V(ElemOf(t), 1)>> >>, x[2]>>, << <<0, <<V(ElemOf(t), 1), V(ElemOf(t), 2), x[1]>> >>, x[2]>>}
                                      : x \in Defects(ElemOf(t), d - 1)}
        ELSE IF IsUnion(t) THEN UNION {{<< << <<FieldsOf(t)[i][1], x[1]>> >>, x[2]>> : x \in Defects(FieldsOf(t)[i][2], d - 1)} : i \in 1..Len(FieldsOf(t))}
        ELSE IF IsStruct(t) THEN UNION {{<<WithField(t, i, x[1]), x[2]>> : x \in Defects(FieldsOf(t)[i][2], d - 1)} : i \in 1..Len(FieldsOf(t))}
        ELSE {})

Incompletes ==
  UNION {{Err(t, x[1], x[2]) : x \in Defects(t, IF Thorough THEN 4 ELSE IF t \in {140, 149} THEN 2 ELSE 3)} : t \in TypeIds}
  \cup UNION {{Ok(t, WithFields(t, S, g, 1), CANON) : S \in {{}} \cup {{i} : i \in 1..Len(FieldsOf(t))}, g \in 0..1} : t \in Structs}

----------------------------------------------------------------------------
(* C17: malformed primitives *)

BadUtf8 == {<<128>>, <<191>>, <<192, 128>>, <<193, 191>>, <<194>>, <<194, 65>>, <<224, 159, 191>>, <<224, 160>>, <<237, 160, 128>>,
            <<237, 191, 191>>, <<239, 191>>, <<240, 143, 191, 191>>, <<240, 144, 128>>, <<244, 144, 128, 128>>, <<245, 128, 128, 128>>,
            <<254>>, <<255>>, <<97, 255, 98>>, <<97, 98, 195>>, [i \in 1..64 |-> IF i = 64 THEN 200 ELSE 65],
            [i \in 1..70 |-> IF i = 33 THEN 160 ELSE 65]}
\* a varint of n bytes, all but the last continued
Long(n) == [i \in 1..n |-> IF i < n THEN 129 ELSE 0]
BadCodes == {13, 14, 15}
BadElems == {2, 13, 14, 15}

\* <<raw value, wanted status>> for a field or element of type t
RECURSIVE BadScalar(_), BadElem(_)
BadScalar(t) ==
  CASE t = 9 -> {<<Lit(s), P_INVALID>> : s \in BadUtf8} \cup {<< <<RAW, Long(n)>>, T_UNKNOWN>> : n \in {6, 10, 11}}
    [] t = 8 -> {<<Lit(s), OK>> : s \in BadUtf8} \cup {<< <<RAW, Long(n)>>, T_UNKNOWN>> : n \in {6, 10, 11}}
    [] t = 4 -> {<< <<RAW, Long(n)>>, T_UNKNOWN>> : n \in {4, 5, 10, 11}}
    [] t = 5 \/ IsEnum(t) -> {<< <<RAW, Long(n)>>, T_UNKNOWN>> : n \in {6, 7, 10, 11}}
    [] t = 6 -> {<< <<RAW, Long(n)>>, T_UNKNOWN>> : n \in {11, 12, 20}}
    [] IsList(t) -> {<< <<RAW, <<16 * n + e>> \o Long(3)>>, P_INVALID>> : n \in 0..14, e \in BadElems}
                    \cup {<< <<RAW, <<240 + e, 2, 1, 1>> >>, P_INVALID>> : e \in BadElems}
                    \cup {<< <<RAW, <<240 + WireOf(ElemOf(t))>> \o Long(n)>>, T_UNKNOWN>> : n \in {6, 10, 11}}
                    \cup UNION {{<< <<0, [i \in 1..3 |-> IF i = p THEN x[1] ELSE V(ElemOf(t), i)]>>, x[2]>> : p \in 1..3} : x \in BadElem(ElemOf(t))}
    [] OTHER -> {}
BadElem(t) == IF t = 1 THEN {<<10 + b, P_INVALID>> : b \in (0..255) \ {1, 2}}
              ELSE IF IsStruct(t) \/ IsList(t) THEN {} ELSE BadScalar(t)

\* contents of unknown fields with a malformed primitive inside
BadContents ==
  {<<c, <<16 * n + e, 1, 1, 1, 1>>, P_INVALID>> : c \in {9, 10}, n \in 0..2, e \in BadElems}
  \cup {<<11, <<1, 16 * k + e, 1, 1>>, P_INVALID>> : k \in BadElems, e \in {5, 8}} \cup {<<11, <<2, 80 + e, 1, 1>>, P_INVALID>> : e \in BadElems}
  \cup {<<c, <<33, b, 1>>, P_INVALID>> : c \in {9, 10}, b \in {0, 3, 4, 16, 17, 128, 255}} \cup {<<9, <<33, 2, b>>, P_INVALID>> : b \in {0, 3, 255}}
  \cup {<<11, <<1, 21, 0, 2>>, P_INVALID>>, <<11, <<1, 81, 2, 3>>, P_INVALID>>}
  \cup {<<12, <<16 * d + b>> \o <<2, 2>>, P_INVALID>> : d \in 0..15, b \in BadCodes}
  \cup {<<4, Long(n), T_UNKNOWN>> : n \in {4, 11}} \cup {<<5, Long(n), T_UNKNOWN>> : n \in {6, 11}} \cup {<<6, Long(11), T_UNKNOWN>>}
  \cup {<<8, Long(6), T_UNKNOWN>>, <<9, <<245>> \o Long(6), T_UNKNOWN>>, <<10, <<245>> \o Long(7), T_UNKNOWN>>, <<11, Long(6), T_UNKNOWN>>,
        <<12, <<5>> \o Long(4), T_UNKNOWN>>, <<9, <<36>> \o <<0>> \o Long(4), T_UNKNOWN>>}
  \cup {<<c, <<16 * n>> \o <<0, 0, 0>>, ANYPROT>> : c \in {9, 10}, n \in 1..14} \cup {<<c, <<240, 3, 0, 0, 0>>, ANYPROT>> : c \in {9, 10}}
  \cup {<<11, <<n, 5, 0, 0>>, ANYPROT>> : n \in {1, 2, 100}} \cup {<<11, <<1, 80, 0, 0>>, ANYPROT>>, <<11, <<3, 0, 0, 0>>, ANYPROT>>}
  \cup {<<12, <<5, 254, 255, 3, 0>> \o <<16 * d + 5, 2, 0>>, P_DEPTH>> : d \in 1..14}
  \cup {<<9, <<0>>, OK>>, <<10, <<0>>, OK>>, <<8, <<2, 255, 200>>, OK>>, <<12, <<5, 252, 255, 3, 0, 21, 2, 0>>, OK>>}

BadFieldCodes(t) ==
  {Err(t, Ins(v, p, <<0, 0, <<16 * d + c, 2, 2, 2>> >>), P_INVALID) : v \in {V(t, 1)}, p \in 0..Len(V(t, 1)), d \in 0..15, c \in BadCodes}
\* a field id step beyond 16 bits: 32767 - n long, then n + 1 short
BadSteps(t) ==
  {Err(t, Ins(Ins(V(t, 1), p, <<0, 0, <<16 * d + c, 2, 2, 2>> >>), p, <<32768 - d, -5, <<2>> >>), P_DEPTH)
   : p \in 0..Len(V(t, 1)), d \in 1..15, c \in {1, 5, 8, 12}}
GoodSteps(t) == {Ok(t, Ins(Ins(V(t, 1), p, <<0, 0, <<16 * d + 5, 2>> >>), p, <<32767 - d, -5, <<2>> >>), Sty(1, 0, 0))
                 : p \in 0..Len(V(t, 1)), d \in 1..15}
BadId(t) == {Err(t, Ins(V(t, 1), p, <<0, 0, <<c>> \o Long(n)>>), T_UNKNOWN) : p \in 0..Len(V(t, 1)), c \in {1, 5, 12}, n \in {4, 5, 11}}

Malformed ==
  UNION {UNION {{<<t, WithField(t, i, x[1]), CANON, -1, x[2]>> : x \in BadScalar(FieldsOf(t)[i][2])} : i \in 1..Len(FieldsOf(t))}
         \cup BadFieldCodes(t) \cup BadSteps(t) \cup BadId(t) : t \in Structs}
  \cup UNION {{<<t, Ins(V(t, 1), p, <<MaxId(t) + 1, -x[1], x[2]>>), CANON, -1, x[3]>> : x \in BadContents, p \in {0, Len(V(t, 1))}}
              : t \in IF Thorough THEN Structs ELSE {101, 114, 132, 149}}
  \cup UNION {{<<t, << <<MaxId(t) + 1, -x[1], x[2]>> >>, CANON, -1, IF x[3] = OK THEN P_INVALID ELSE x[3]>> : x \in BadContents} : t \in UnionIds}

----------------------------------------------------------------------------
(* C08: claims that exceed the limit; the limit is what remains after the enclosing content *)

Claims == {<<0, 0, 16, 0>>, <<255, 255, 255, 7>>, <<0, 0, 0, 8>>, <<0, 0, 0, 128>>, <<255, 255, 255, 127>>, <<255, 255, 255, 255>>,
           <<0, 0, 0, 32>>, <<1, 0, 0, 32>>, <<0, 0, 0, 16>>}
ClaimVar(q) == UVar(q \o <<0, 0, 0, 0>>)
Huge(t) ==
  UNION {LET ft == FieldsOf(t)[i][2]
         IN IF ft \in {8, 9} THEN {<<t, WithField(t, i, <<RAW, ClaimVar(q) \o <<65, 66>> >>), CANON, l, P_SIZE>> : q \in Claims, l \in {100, 1000, 65536}}
            ELSE IF IsList(ft) THEN {<<t, WithField(t, i, <<RAW, <<240 + WireOf(ElemOf(ft))>> \o ClaimVar(q) \o <<0, 1, 2>> >>), CANON, l, P_SIZE>>
                                     : q \in Claims, l \in {200, 1000, 65536}}
                                    \cup (IF ElemOf(ft) \in {8, 9} THEN {<<t, WithField(t, i, <<0, <<V(ElemOf(ft), 1), <<RAW, ClaimVar(q)>> >> >>), CANON, 1000, P_SIZE>> : q \in Claims} ELSE {})
            ELSE {} : i \in 1..Len(FieldsOf(t))}
  \cup {<<t, Ins(V(t, 1), 0, <<MaxId(t) + 1, -u[1], u[2]>>), CANON, l, P_SIZE>>
        : l \in {100, 65536}, u \in {<<8, ClaimVar(q) \o <<65>> >> : q \in Claims} \cup {<<c, <<240 + e>> \o ClaimVar(q) \o <<1, 1>> >> : c \in {9, 10}, e \in {1, 8, 12}, q \in Claims}
                                     \cup {<<11, ClaimVar(q) \o <<85, 1>> >> : q \in Claims}}

\* values with skipped content and their exact charge, by limit: the limit is filled in by the model
Charged == UNION {{<<t, v, CANON, -1, OK>> : v \in {InsAll(t, FullV(t, 1, 2), u) : u \in Plain} \cup {FullV(t, 1, 5)}
                                                   \cup {Ins(V(t, 1), Len(V(t, 1)), Unk(MaxId(t) + 1, u)) : u \in Plain}} : t \in Structs}
           \cup UNION {{<<t, Ins(V(t, 1), 0, Unk(MaxId(t) + 1, u)), CANON, -1, OK>> : u \in Contents} : t \in {101, 132}}
=============================================================================
