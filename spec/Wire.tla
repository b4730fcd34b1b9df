------------------------------- MODULE Wire -------------------------------
(* Bytes, integers and varints of the Thrift compact protocol.                            *)
(*                                                                                        *)
(* A 64-bit integer is an 8-tuple of bytes, little-endian, two's complement ("word");     *)
(* TLC's own integers (32 bit) are used only for bytes, ids, counts and offsets.          *)
(* A byte string is a sequence of integers; a negative entry -(256*n+b)-1 stands for a    *)
(* run of n bytes b and occurs only in behaviours about very large contents.              *)
EXTENDS Integers, Sequences

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384>>

Run(n, b) == -(256 * n + b) - 1
RunLen(e) == (-(e + 1)) \div 256
RunByte(e) == (-(e + 1)) % 256

RECURSIVE SumLen(_, _)
SumLen(s, i) == IF i > Len(s) THEN 0 ELSE (IF s[i] >= 0 THEN 1 ELSE RunLen(s[i])) + SumLen(s, i + 1)
\* number of bytes a byte string stands for
BytesLen(s) == IF \A i \in DOMAIN s : s[i] >= 0 THEN Len(s) ELSE SumLen(s, 1)

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* concatenation of a sequence of sequences, by halves
RECURSIVE ConcatR(_, _, _)
ConcatR(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
                     ELSE LET m == (i + j) \div 2 IN ConcatR(ss, i, m) \o ConcatR(ss, m + 1, j)
Concat(ss) == ConcatR(ss, 1, Len(ss))

----------------------------------------------------------------------------
(* Words *)

Byte(u, i) == IF i <= Len(u) THEN u[i] ELSE 0

\* word of a TLC integer
W(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
        \o (IF n < 0 THEN <<255, 255, 255, 255>> ELSE <<0, 0, 0, 0>>)

\* sign-extend / zero-extend the low k bytes of a word
SExt(v, k) == [i \in 1..8 |-> IF i <= k THEN v[i] ELSE IF v[k] >= 128 THEN 255 ELSE 0]
ZExt(v, k) == [i \in 1..8 |-> IF i <= k THEN v[i] ELSE 0]

\* TLC integer of a word known to be a 16-bit signed value
Int16(v) == (IF v[2] >= 128 THEN -65536 ELSE 0) + v[1] + 256 * v[2]
\* TLC integer of an unsigned 32-bit word, HUGE when it is 2^27 or more
HUGE == 134217728
USize(v) == IF v[4] >= 8 THEN HUGE ELSE v[1] + 256 * v[2] + 65536 * v[3] + 16777216 * v[4]
\* a word that W can represent and USize returns exactly
FromSize(n) == W(n)

\* the 2^k-th word and its neighbours are useful boundary values
Bit(k) == [i \in 1..8 |-> IF k \div 8 = i - 1 THEN Pow2[(k % 8) + 1] ELSE 0]
RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) == IF i > 8 THEN <<>>
                    ELSE LET s == a[i] + b[i] + c IN <<s % 256>> \o AddC(a, b, i + 1, s \div 256)
Add(a, b) == AddC(a, b, 1, 0)
Not(a) == [i \in 1..8 |-> 255 - a[i]]
Neg(a) == Add(Not(a), W(1))
Dec(a) == Add(a, W(-1))

----------------------------------------------------------------------------
(* Zigzag and base-128 groups *)

Zig(v) == LET neg == v[8] >= 128
          IN [i \in 1..8 |-> LET s == ((v[i] * 2) % 256) + (IF i > 1 THEN v[i - 1] \div 128 ELSE 0)
                             IN IF neg THEN 255 - s ELSE s]
UnZig(u) == LET odd == u[1] % 2 = 1
            IN [i \in 1..8 |-> LET s == u[i] \div 2 + (IF i < 8 THEN (u[i + 1] % 2) * 128 ELSE 0)
                               IN IF odd THEN 255 - s ELSE s]

\* k-th (0-based) 7-bit group of a word
Group(u, k) == LET q == (7 * k) \div 8
                   r == (7 * k) % 8
               IN ((Byte(u, q + 1) + 256 * Byte(u, q + 2)) \div Pow2[r + 1]) % 128

RECURSIVE TopGroup(_, _)
TopGroup(u, k) == IF k = 0 \/ Group(u, k) # 0 THEN k ELSE TopGroup(u, k - 1)

\* minimal length in bytes of the unsigned varint of u
VarLen(u) == TopGroup(u, 9) + 1

\* unsigned varint of u, padded by p redundant bytes
UVarP(u, p) == LET n == VarLen(u) + p
               IN [i \in 1..n |-> (IF i <= 10 THEN Group(u, i - 1) ELSE 0) + (IF i < n THEN 128 ELSE 0)]
UVar(u) == UVarP(u, 0)
SVarP(v, p) == UVarP(Zig(v), p)
SVar(v) == SVarP(v, 0)

\* word denoted by the varint bytes g (continuation bits ignored; bits beyond 64 dropped)
VarWord(g) ==
  LET grp(k) == IF k < Len(g) THEN g[k + 1] % 128 ELSE 0
  IN [j \in 1..8 |-> LET k == (8 * (j - 1)) \div 7
                         r == (8 * (j - 1)) % 7
                     IN ((grp(k) + 128 * grp(k + 1) + 16384 * grp(k + 2)) \div Pow2[r + 1]) % 256]

\* longest varint accepted for a type of k bytes
VarMax(k) == (8 * k + 7) \div 7

----------------------------------------------------------------------------
(* Status codes shared with the harness *)

OK == 0
T_UNKNOWN == 100
T_NOTOPEN == 101
T_ALREADYOPEN == 102
T_TIMEDOUT == 103
T_EOF == 104
P_UNKNOWN == 200
P_INVALID == 201
P_SIZE == 203
P_VERSION == 204
P_DEPTH == 206
ANYERR == 998      \* some error, kind left open (allocation of an absurd size may or may not be refused)

(* Thrift types as the public API names them: 0 stop, 2 bool, 3 byte, 4 double, 6 i16, 8 i32, 10 i64,
   11 string, 12 struct, 13 map, 14 set, 15 list are the classic codes; the compact protocol has its own.
   The specification uses the compact codes throughout:
   0 stop, 1 bool (true), 2 bool (false), 3 i8, 4 i16, 5 i32, 6 i64, 7 double, 8 binary, 9 list,
   10 set, 11 map, 12 struct.  As an API-level type a bool is 1. *)
FieldCodeOK(n) == n <= 12
ElemCodeOK(n) == n <= 12 /\ n # 2
TypeOfCode(n) == IF n = 2 THEN 1 ELSE n

----------------------------------------------------------------------------
(* UTF-8 (RFC 3629), as accepted for strings *)

\* bytes in the sequence a lead byte begins; 0 for a byte that begins none
Utf8Len(b) == IF b < 128 THEN 1 ELSE IF b < 194 THEN 0 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE IF b < 245 THEN 4 ELSE 0
\* the byte after lead b is one of these, all later ones are in 128..191
Utf8Second(b, x) == /\ x >= (CASE b = 224 -> 160 [] b = 240 -> 144 [] OTHER -> 128)
                    /\ x <= (CASE b = 237 -> 159 [] b = 244 -> 143 [] OTHER -> 191)
Utf8At(s, i) == LET n == Utf8Len(s[i])
                IN n > 0 /\ i + n - 1 <= Len(s) /\ (n > 1 => Utf8Second(s[i], s[i + 1])) /\ \A k \in 2..(n - 1) : s[i + k] >= 128 /\ s[i + k] <= 191
\* every byte begins a sequence that is complete, or continues one
ValidUtf8(s) == \A i \in {i \in DOMAIN s : s[i] > 127} :
                  IF s[i] >= 128 /\ s[i] <= 191
                  THEN \E k \in 1..3 : i - k >= 1 /\ Utf8Len(s[i - k]) > k
                  ELSE Utf8At(s, i)
=============================================================================
