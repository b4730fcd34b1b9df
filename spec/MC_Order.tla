------------------------------- MODULE MC_Order -------------------------------
(* Two values of a type compared field by field: the first field that differs decides.      *)
(* Pairs differing in one field, in two fields pulling in opposite directions, in one leaf   *)
(* however deep, or in nothing.                                                              *)
EXTENDS Order

CONSTANT Thorough

Few(t) ==
  CASE t = 1 -> {0, 1}
    [] t = 3 -> {W(0), W(1), W(-1), W(127), W(-128)}
    [] t = 4 -> {W(0), W(1), W(-1), W(255), W(256), W(32767), W(-32768)}
    [] t = 5 -> {W(0), W(1), W(-1), W(255), W(256), W(65536), SExt(Bit(31), 4), SExt(Dec(Bit(31)), 4)}
    [] t = 6 -> {W(0), W(1), W(-1), W(256), Bit(32), Add(Bit(32), W(1)), Bit(31), Bit(63), Not(Bit(63)), Neg(Bit(32))}
    [] t = 8 -> {Lit(<<>>), Lit(<<0>>), Lit(<<127>>), Lit(<<128>>), Lit(<<255>>), Lit(<<0, 0>>), Lit(<<0, 255>>)}
    [] t = 9 -> {Lit(<<>>), Lit(<<97>>), Lit(<<65>>), Lit(<<97, 0>>), Lit(<<97, 98>>), Lit(<<195, 169>>), Lit(<<240, 159, 166, 128>>)}
    [] IsEnum(t) -> {W(n) : n \in {-1, 0, 1, 2, 3, 100}} \cup {SExt(Bit(31), 4), W(256)}
    [] IsUnion(t) -> {<< <<f[1], V(f[2], g)>> >> : f \in {FieldsOf(t)[i] : i \in DOMAIN FieldsOf(t)}, g \in 0..1}
    [] IsStruct(t) -> {V(t, 0), V(t, 1), FullV(t, 1, 1), FullV(t, 2, 2)}
    [] IsList(t) -> LET x == V(ElemOf(t), 1)
                        y == V(ElemOf(t), 2)
                    IN {<<0, s>> : s \in {<<>>, <<x>>, <<y>>, <<x, y>>, <<y, x>>, <<x, x>>, <<x, y, x>>}}

Ix(t) == 1..Len(FieldsOf(t))
Ft(t, i) == FieldsOf(t)[i][2]
Without(v, id) == SelectSeq(v, LAMBDA f : f[1] # id)
\* the value with the field of that id set, in its place
RECURSIVE With(_, _, _)
With(v, id, x) == IF v = <<>> THEN << <<id, x>> >>
                  ELSE IF v[1][1] = id THEN << <<id, x>> >> \o Tail(v)
                  ELSE IF v[1][1] > id THEN << <<id, x>> >> \o v
                  ELSE <<v[1]>> \o With(Tail(v), id, x)

\* one field, over the smallest and the fullest surroundings; absent where it may be
Around1(t) == {V(t, 1), FullV(t, 1, 1)}
Forms(t, v, i) == {With(v, FieldsOf(t)[i][1], x) : x \in Few(Ft(t, i))} \cup (IF FieldsOf(t)[i][3] = 0 THEN {Without(v, FieldsOf(t)[i][1])} ELSE {})
OneField(t) == UNION {UNION {Forms(t, v, i) \X Forms(t, v, i) : i \in Ix(t)} : v \in Around1(t)}

\* two fields, each one way or the other: the earlier decides
Two(t, i) == LET S == Few(Ft(t, i)) IN CHOOSE p \in S \X S : Cmp(Ft(t, i), p[1], p[2]) = LESS
Differ(t) == {i \in Ix(t) : \E x \in Few(Ft(t, i)) : \E y \in Few(Ft(t, i)) : Cmp(Ft(t, i), x, y) = LESS}
TwoFields(t) ==
  UNION {LET x == Two(t, i)
             y == Two(t, j)
             set(v, a, b) == With(With(v, FieldsOf(t)[i][1], a), FieldsOf(t)[j][1], b)
         IN UNION {{<<set(v, x[1], y[2]), set(v, x[2], y[1])>>, <<set(v, x[2], y[1]), set(v, x[1], y[2])>>, <<set(v, x[2], y[2]), set(v, x[2], y[1])>>} : v \in Around1(t)}
            \cup (IF FieldsOf(t)[i][3] = 0
                  THEN {<<Without(set(v, x[1], y[2]), FieldsOf(t)[i][1]), set(v, x[1], y[1])>> : v \in Around1(t)} ELSE {})
            \cup (IF FieldsOf(t)[j][3] = 0
                  THEN {<<Without(set(v, x[2], y[1]), FieldsOf(t)[j][1]), set(v, x[1], y[1])>> : v \in Around1(t)} ELSE {})
         : i \in Differ(t), j \in Differ(t)}

\* every way of changing one leaf
Other(t, v) == CASE t = 1 -> {1 - v}
                 [] t \in {8, 9} -> {Lit(Append(v[3], 33))} \cup (IF v[3] # <<>> THEN {Lit(SubSeq(v[3], 1, Len(v[3]) - 1) \o <<49>>)} \ {v} ELSE {})
                 [] OTHER -> {Add(v, W(1)), IF t = 6 THEN Add(v, Bit(33)) ELSE Add(v, W(-1))}
RECURSIVE Mut(_, _)
Mut(t, v) ==
  IF IsUnion(t) THEN {<< <<v[1][1], m>> >> : m \in Mut(FieldsOf(t)[FieldIx(t, v[1][1])][2], v[1][2])}
                     \cup {<< <<f[1], V(f[2], 1)>> >> : f \in {FieldsOf(t)[i] : i \in Ix(t)}}
  ELSE IF IsStruct(t) THEN UNION {{[v EXCEPT ![i][2] = m] : m \in Mut(FieldsOf(t)[FieldIx(t, v[i][1])][2], v[i][2])}
                                  \cup (IF FieldsOf(t)[FieldIx(t, v[i][1])][3] = 0 THEN {Without(v, v[i][1])} ELSE {}) : i \in DOMAIN v}
  ELSE IF IsList(t) THEN UNION {{[v EXCEPT ![2][i] = m] : m \in Mut(ElemOf(t), v[2][i])} : i \in DOMAIN v[2]}
                         \cup {<<0, Append(v[2], V(ElemOf(t), 7))>>} \cup (IF v[2] # <<>> THEN {<<0, Tail(v[2])>>} ELSE {})
  ELSE Other(t, v)
Leaves(t) == UNION {{<<v, m>> : m \in Mut(t, v)} : v \in {FullV(t, g, d) : g \in IF Thorough THEN 1..3 ELSE {1}, d \in {1, IF Thorough THEN 5 ELSE 4}}}

Equal(t) == {<<v, v>> : v \in {FullV(t, g, d) : g \in 0..3, d \in 1..3}}

Pairs(t) == IF IsEnum(t) THEN (Few(t) \cup {W(n) : n \in 0..8}) \X (Few(t) \cup {W(n) : n \in 0..8})
            ELSE IF IsUnion(t) THEN (Few(t) \X Few(t)) \cup Leaves(t) \cup Equal(t)
            ELSE OneField(t) \cup TwoFields(t) \cup Leaves(t) \cup Equal(t)

----------------------------------------------------------------------------
VARIABLES t, a, b, i, c
vars == <<t, a, b, i, c>>
Init == t \in TypeIds \cup EnumIds /\ a = <<>> /\ b = <<>> /\ i = 0 /\ c = SAME

Choose == /\ i = 0 /\ i' = 1 /\ c' = SAME /\ UNCHANGED t
          /\ \E p \in Pairs(t) : a' = p[1] /\ b' = p[2]
Fields == IF IsStruct(t) /\ ~IsUnion(t) THEN Len(FieldsOf(t)) ELSE 1
Step == IF IsStruct(t) /\ ~IsUnion(t) THEN CmpField(t, FieldsOf(t)[i], a, b) ELSE Cmp(t, a, b)
Compare == /\ i \in 1..Fields /\ c = SAME
           /\ c' = Step /\ i' = i + 1 /\ UNCHANGED <<t, a, b>>
Decided == i > 0 /\ (c # SAME \/ i > Fields)
Emit == /\ Decided /\ i < 100 /\ i' = 100 /\ UNCHANGED <<t, a, b, c>>
        /\ LET x == Flat(t, a)
               y == Flat(t, b)
           IN PrintT(ToString(<<14, t, c, Len(x)>> \o x \o <<Len(y)>> \o y))
Next == Choose \/ (~Decided /\ Compare) \/ Emit
Spec == Init /\ [][Next]_vars

\* field by field is the order on the whole; it turns with its sides; equal values are the same
Whole == (Decided /\ i < 100) => /\ c = Cmp(t, a, b) /\ c = -Cmp(t, b, a)
                                 /\ (c = SAME) = (Flat(t, a) = Flat(t, b))

\* and it is a total order
ASSUME \A e \in {1, 3, 4, 5, 6, 8, 9, 200, 207, 1005, 1009, 112, 116, 119} \cap (TypeIds \cup EnumIds \cup 1..9 \cup 1000..1300) :
         \A x \in Few(e) : \A y \in Few(e) : \A z \in Few(e) : (Cmp(e, x, y) # MORE /\ Cmp(e, y, z) # MORE) => Cmp(e, x, z) # MORE

----------------------------------------------------------------------------
(* The identifiers the protocols pass around hold what they are made of, and are equal      *)
(* exactly when made of the same: 1 message, 2 struct, 3 field, 4 list, 5 set, 6 map         *)
Names1 == {<<>>, <<97>>, <<98>>, <<206, 187>>, [k \in 1..200 |-> 65 + (k % 26)]}
Words4 == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 0, 128>>, <<255, 255, 255, 255>>}
Wires == {0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
NONE == -99999
Made(k) == CASE k = 1 -> {<<ty>> \o q \o n : ty \in 1..4, q \in Words4, n \in {<<>>, <<97>>}}
             [] k = 2 -> Names1
             [] k = 3 -> {<<wt, id, nm>> : wt \in {0, 1, 5, 12}, id \in {NONE, 0, 1, -1, 256, 32767, -32768}, nm \in {NONE, 0, 97}}
             [] k \in {4, 5} -> {<<wt>> \o q : wt \in Wires, q \in Words4}
             [] k = 6 -> {<<wt, u>> \o q : wt \in {NONE, 1, 5, 8, 12}, u \in {NONE, 1, 5, 8, 12}, q \in {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<255, 255, 255, 255>>}}
ASSUME \A k \in 1..6 : \A x \in Made(k) : \A y \in Made(k) : PrintT(ToString(<<16, k, Len(x)>> \o x \o <<Len(y)>> \o y))
=============================================================================
