------------------------------- MODULE Decoder -------------------------------
(* Decoding a Parquet metadata value: a push-down automaton over the reader.               *)
(*                                                                                         *)
(* Configuration c = [r, k, s, v]:                                                         *)
(*   r  reader state (module Reader)                                                       *)
(*   k  control stack, innermost frame last                                                *)
(*   s  RUN while decoding, then OK or an error status                                     *)
(*   v  the decoded value once s = OK                                                      *)
(* Frames:                                                                                 *)
(*   [f |-> "S", t, id, got, n]  inside struct or union t; id: field being read; got: fields *)
(*                               received as <<id, value>> in id order; n: unions only,      *)
(*                               number of fields seen                                       *)
(*   [f |-> "L", t, n, acc]      inside a list of element type t with n elements to go     *)
(*   [f |-> "KS", d]             skipping a struct, d levels left for its content          *)
(*   [f |-> "KL", t, n, d]       skipping n more elements of wire type t                   *)
(*   [f |-> "KM", t, u, n, d]    skipping n more keys and values, of wire types t and u in turn *)
(* Values are flat integer sequences, also used to talk to the harness:                    *)
(*   1 b | 2 <8 bytes> | 3 <8 bytes> | 4 n <n bytes> | 5 n <elements> | 6 n (id <value>)*n  *)
EXTENDS Reader, Schema

RUN == -1
NEED == -2       \* used by the byte-level model: the step needs input not yet supplied

MAXSKIP == 64

Frame(f, t, u, n, d, id, got, acc) ==
  [f |-> f, t |-> t, u |-> u, n |-> n, d |-> d, id |-> id, got |-> got, acc |-> acc]
SFrame(t) == Frame("S", t, 0, 0, 0, 0, <<>>, <<>>)
LFrame(t, n) == Frame("L", t, 0, n, 0, 0, <<>>, <<5, n>>)
KSFrame(d) == Frame("KS", 0, 0, 0, d, 0, <<>>, <<>>)
KLFrame(t, n, d) == Frame("KL", t, 0, n, d, 0, <<>>, <<>>)
KMFrame(t, u, n, d) == Frame("KM", t, u, n, d, 0, <<>>, <<>>)

Cfg(r, k, s, v) == [r |-> r, k |-> k, s |-> s, v |-> v]
Fail(c, s) == [c EXCEPT !.s = s]

Pop(k) == SubSeq(k, 1, Len(k) - 1)
Top(k) == k[Len(k)]
SetTop(k, fr) == [k EXCEPT ![Len(k)] = fr]

----------------------------------------------------------------------------
(* Received fields, sorted by id; a later occurrence replaces an earlier one *)

RECURSIVE Put(_, _, _)
Put(got, id, v) == IF got = <<>> THEN <<<<id, v>>>>
                   ELSE IF Head(got)[1] < id THEN <<Head(got)>> \o Put(Tail(got), id, v)
                   ELSE IF Head(got)[1] = id THEN <<<<id, v>>>> \o Tail(got)
                   ELSE <<<<id, v>>>> \o got

RECURSIVE Cat(_)
Cat(got) == IF got = <<>> THEN <<>> ELSE <<Head(got)[1]>> \o Head(got)[2] \o Cat(Tail(got))
FlatStruct(got) == <<6, Len(got)>> \o Cat(got)

Received(got, id) == \E i \in DOMAIN got : got[i][1] = id
Complete(t, got) == LET fs == FieldsOf(t) IN \A i \in DOMAIN fs : fs[i][3] = 1 => Received(got, fs[i][1])

----------------------------------------------------------------------------
(* A completed value goes to the frame below; lists may complete in turn *)

\* a union counts the fields it receives (two and more are alike)
Counted(t) == IF IsUnion(t.t) THEN [t EXCEPT !.n = Min(2, @ + 1)] ELSE t

RECURSIVE Deliver(_, _, _)
Deliver(r, k, v) ==
  IF k = <<>> THEN Cfg(r, k, OK, v)
  ELSE LET t == Top(k) IN
       CASE t.f = "S" -> IF IsUnion(t.t) /\ t.got # <<>>
                         THEN Cfg(r, SetTop(k, Counted(t)), RUN, <<>>)
                         ELSE Cfg(r, SetTop(k, Counted([t EXCEPT !.got = Put(@, t.id, v)])), RUN, <<>>)
         [] t.f = "L" -> IF t.n = 1 THEN Deliver(r, Pop(k), t.acc \o v)
                         ELSE Cfg(r, SetTop(k, [t EXCEPT !.n = @ - 1, !.acc = @ \o v]), RUN, <<>>)

\* skipped content has no value: just continue with the frame below
RECURSIVE Skipped(_, _)
Skipped(r, k) ==
  IF k = <<>> THEN Cfg(r, k, OK, <<>>)
  ELSE LET t == Top(k) IN
       CASE t.f = "S" -> Cfg(r, SetTop(k, Counted(t)), RUN, <<>>)
         [] t.f = "KS" -> Cfg(r, k, RUN, <<>>)
         [] t.f \in {"KL", "KM"} ->
              LET n2 == IF t.f = "KL" THEN [t EXCEPT !.n = @ - 1] ELSE [t EXCEPT !.n = @ - 1, !.t = t.u, !.u = t.t]
              IN IF t.n = 1 THEN Skipped(r, Pop(k)) ELSE Cfg(r, SetTop(k, n2), RUN, <<>>)

----------------------------------------------------------------------------
(* Starting to read a value of schema type t, and to skip one of wire type t *)

Scalar(inp, r, t) ==
  LET pack(x, tag) == IF x.s # OK THEN x ELSE Res(OK, x.r, <<tag>> \o x.v)
      bin(x) == IF x.s # OK THEN x ELSE Res(OK, x.r, <<4, Len(x.v)>> \o x.v)
  IN CASE t = 1 -> LET x == RBool(inp, r) IN IF x.s # OK THEN x ELSE Res(OK, x.r, <<1, x.v>>)
       [] t = 3 -> pack(RI8(inp, r), 2)
       [] t = 4 -> pack(RI16(inp, r), 2)
       [] t = 5 -> pack(RI32(inp, r), 2)
       [] t = 6 -> pack(RI64(inp, r), 2)
       [] t = 7 -> pack(RDouble(inp, r), 3)
       [] t = 8 -> bin(RBytes(inp, r))
       [] t = 9 -> bin(RString(inp, r))
       [] IsEnum(t) -> pack(RI32(inp, r), 2)

Open(inp, c, t) ==
  IF IsStruct(t)
  THEN LET x == RStructBegin(inp, c.r)
       IN IF x.s # OK THEN Fail(c, x.s) ELSE Cfg(x.r, Append(c.k, SFrame(t)), RUN, <<>>)
  ELSE IF IsList(t)
  THEN LET x == RListBegin(inp, c.r)
           n == USize(SubSeq(x.v, 2, 5))
       IN IF x.s # OK THEN Fail(c, x.s)
          ELSE IF n > 131072 /\ n > Len(inp) - x.r.pos THEN Fail(c, ANYERR)
          ELSE IF n = 0 THEN Deliver(x.r, c.k, <<5, 0>>)
          ELSE Cfg(x.r, Append(c.k, LFrame(ElemOf(t), n)), RUN, <<>>)
  ELSE LET x == Scalar(inp, c.r, t)
       IN IF x.s # OK THEN Fail(c, x.s) ELSE Deliver(x.r, c.k, x.v)

OpenSkip(inp, c, t, d) ==
  LET r == c.r
      scalar(x) == IF x.s # OK THEN Fail(c, x.s) ELSE Skipped(x.r, c.k)
  IN IF d <= 0 THEN Fail(c, P_DEPTH)
     ELSE CASE t = 1 -> scalar(RBool(inp, r))
            [] t = 3 -> scalar(RI8(inp, r))
            [] t = 4 -> scalar(RI16(inp, r))
            [] t = 5 -> scalar(RI32(inp, r))
            [] t = 6 -> scalar(RI64(inp, r))
            [] t = 7 -> scalar(RDouble(inp, r))
            [] t = 8 -> scalar(RBytes(inp, r))
            [] t \in {9, 10} -> LET x == RListBegin(inp, r)
                                    n == USize(SubSeq(x.v, 2, 5))
                                IN IF x.s # OK THEN Fail(c, x.s)
                                   ELSE IF n = 0 THEN Skipped(x.r, c.k)
                                   ELSE Cfg(x.r, Append(c.k, KLFrame(x.v[1], n, d - 1)), RUN, <<>>)
            [] t = 11 -> LET x == RMapBegin(inp, r)
                             n == USize(SubSeq(x.v, 3, 6))
                         IN IF x.s # OK THEN Fail(c, x.s)
                            ELSE IF n = 0 THEN Skipped(x.r, c.k)
                            ELSE Cfg(x.r, Append(c.k, KMFrame(x.v[1], x.v[2], 2 * n, d - 1)), RUN, <<>>)
            [] t = 12 -> LET x == RStructBegin(inp, r)
                         IN IF x.s # OK THEN Fail(c, x.s)
                            ELSE Cfg(x.r, Append(c.k, KSFrame(d - 1)), RUN, <<>>)
            [] OTHER -> Fail(c, P_UNKNOWN)

----------------------------------------------------------------------------
(* One step *)

DStep(inp, c) ==
  LET t == Top(c.k) IN
  CASE t.f = "L" -> Open(inp, c, t.t)
    [] t.f \in {"KL", "KM"} -> OpenSkip(inp, c, t.t, t.d)
    [] t.f = "KS" ->
         LET h == RFieldBegin(inp, c.r)
         IN IF h.s # OK THEN Fail(c, h.s)
            ELSE IF h.v[1] = 0 THEN Skipped(RStructEnd(inp, h.r).r, Pop(c.k))
            ELSE OpenSkip(inp, [c EXCEPT !.r = h.r], h.v[1], t.d)
    [] t.f = "S" ->
         LET h == RFieldBegin(inp, c.r)
             e == RStructEnd(inp, h.r).r
             ix == FieldIx(t.t, h.v[2])
         IN IF h.s # OK THEN Fail(c, h.s)
            ELSE IF h.v[1] = 0
                 THEN IF IsUnion(t.t) THEN IF t.n = 1 /\ Len(t.got) = 1
                                           THEN Deliver(e, Pop(c.k), FlatStruct(t.got))
                                           ELSE Fail(c, P_INVALID)
                      ELSE IF Complete(t.t, t.got) THEN Deliver(e, Pop(c.k), FlatStruct(t.got))
                      ELSE Fail(c, P_UNKNOWN)
            ELSE IF ix = 0 THEN OpenSkip(inp, [c EXCEPT !.r = h.r], h.v[1], MAXSKIP)
            ELSE Open(inp, [c EXCEPT !.r = h.r, !.k = SetTop(@, [t EXCEPT !.id = h.v[2]])],
                      FieldsOf(t.t)[ix][2])

\* decode a value of type t / skip a value of wire type t, starting from reader state r
Start(inp, r, t) == Open(inp, Cfg(r, <<>>, RUN, <<>>), t)
StartSkip(inp, r, t, d) == OpenSkip(inp, Cfg(r, <<>>, RUN, <<>>), t, d)

RECURSIVE RunOn(_, _)
RunOn(inp, c) == IF c.s # RUN THEN c ELSE RunOn(inp, DStep(inp, c))
\* whole decode in one go; the pieces of DStep cannot be interrupted by anything observable
Decode(inp, r, t) == RunOn(inp, Start(inp, r, t))
Skip(inp, r, t, d) == RunOn(inp, StartSkip(inp, r, t, d))
=============================================================================
