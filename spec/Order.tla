-------------------------------- MODULE Order --------------------------------
(* The order on metadata values: fields in the order of the IDL, an absent one before a     *)
(* present one, numbers by value, texts and binaries byte by byte, lists element by element, *)
(* unions by alternative.  Two values are equal exactly when neither comes first.            *)
EXTENDS Values

LESS == -1
SAME == 0
MORE == 1
Sign(x, y) == IF x < y THEN LESS ELSE IF x = y THEN SAME ELSE MORE

\* signed words: the byte of the sign, shifted, then the others from the top
RECURSIVE CmpFrom(_, _, _)
CmpFrom(x, y, k) == IF k = 0 THEN SAME ELSE IF x[k] # y[k] THEN Sign(x[k], y[k]) ELSE CmpFrom(x, y, k - 1)
CmpWord(x, y) == LET sx == (x[8] + 128) % 256
                     sy == (y[8] + 128) % 256
                 IN IF sx # sy THEN Sign(sx, sy) ELSE CmpFrom(x, y, 7)

RECURSIVE CmpBytes(_, _, _)
CmpBytes(x, y, i) == IF i > Len(x) \/ i > Len(y) THEN Sign(Len(x), Len(y))
                     ELSE IF x[i] # y[i] THEN Sign(x[i], y[i]) ELSE CmpBytes(x, y, i + 1)

At(v, id) == LET S == {i \in DOMAIN v : v[i][1] = id} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

RECURSIVE Cmp(_, _, _), CmpList(_, _, _, _), CmpFields(_, _, _, _)
CmpField(t, f, x, y) == LET i == At(x, f[1])
                            j == At(y, f[1])
                        IN IF i = 0 \/ j = 0 THEN Sign(Min(i, 1), Min(j, 1)) ELSE Cmp(f[2], x[i][2], y[j][2])
CmpFields(t, x, y, k) ==
  IF k > Len(FieldsOf(t)) THEN SAME
  ELSE LET c == CmpField(t, FieldsOf(t)[k], x, y) IN IF c # SAME THEN c ELSE CmpFields(t, x, y, k + 1)
CmpList(t, x, y, i) == IF i > Len(x) \/ i > Len(y) THEN Sign(Len(x), Len(y))
                       ELSE LET c == Cmp(t, x[i], y[i]) IN IF c # SAME THEN c ELSE CmpList(t, x, y, i + 1)
Cmp(t, x, y) ==
  CASE t = 1 -> Sign(x, y)
    [] t \in {3, 4, 5, 6} \/ IsEnum(t) -> CmpWord(x, y)
    [] t \in {8, 9} -> CmpBytes(x[3], y[3], 1)
    [] IsList(t) -> CmpList(ElemOf(t), x[2], y[2], 1)
    [] IsUnion(t) -> LET i == FieldIx(t, x[1][1])
                         j == FieldIx(t, y[1][1])
                     IN IF i # j THEN Sign(i, j) ELSE Cmp(FieldsOf(t)[i][2], x[1][2], y[1][2])
    [] IsStruct(t) -> CmpFields(t, x, y, 1)
=============================================================================
