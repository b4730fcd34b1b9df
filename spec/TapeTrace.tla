------------------------------ MODULE TapeTrace ------------------------------
(* Metadata recorded while it was written onto, or read from, a tape of calls by the real    *)
(* code (harness/src/rec.rs), accepted or rejected by module Tape.  One history per line:    *)
(*   k "tw": type, flat value, calls made, status, count                                     *)
(*   k "tr": type, calls on the tape, how many were asked for, status, flat value read       *)
(* fail: the call that failed, 0 none.  Status 1: the failure of that call was returned.     *)
(* When something is skipped, the flat value is its wire type and the levels allowed.        *)
EXTENDS Tape, Json, IOUtils

CONSTANT Mode

Log == ndJsonDeserialize(IOEnv.TRACE)
SKIPPED == 98
FLUSHED == 24

VARIABLES k,      \* the history
          i,      \* calls accepted
          c,      \* what reading has come to
          open,   \* what is open on the tape
          st      \* "run", "accepted", "rejected"
vars == <<k, i, c, open, st>>
H == Log[k]

\* the value denoted by a flat sequence from position p, and the position behind it
RECURSIVE Unflat(_, _, _), UnFields(_, _, _, _, _), UnElems(_, _, _, _, _)
Unflat(t, f, p) ==
  CASE f[p] = 1 -> <<f[p + 1], p + 2>>
    [] f[p] \in {2, 3} -> <<SubSeq(f, p + 1, p + 8), p + 9>>
    [] f[p] = 4 -> <<Lit(SubSeq(f, p + 2, p + 1 + f[p + 1])), p + 2 + f[p + 1]>>
    [] f[p] = 5 -> LET e == UnElems(ElemOf(t), f, p + 2, f[p + 1], <<>>) IN <<<<0, e[1]>>, e[2]>>
    [] f[p] = 6 -> UnFields(t, f, p + 2, f[p + 1], <<>>)
UnFields(t, f, p, n, got) ==
  IF n = 0 THEN <<got, p>>
  ELSE LET x == Unflat(FieldsOf(t)[FieldIx(t, f[p])][2], f, p + 1) IN UnFields(t, f, x[2], n - 1, Append(got, <<f[p], x[1]>>))
UnElems(t, f, p, n, got) ==
  IF n = 0 THEN <<got, p>>
  ELSE LET x == Unflat(t, f, p) IN UnElems(t, f, x[2], n - 1, Append(got, x[1]))

Value == IF H.ty = APP THEN <<<<1, Lit(Tail(H.flat))>>, <<2, W(H.flat[1])>>>> ELSE Unflat(H.ty, H.flat, 1)[1]
Tape1 == TapeOf(H.ty, Value) \o (IF H.ty = APP THEN <<Op(FLUSHED, <<>>)>> ELSE <<>>)

Init == /\ k \in DOMAIN Log
        /\ i = 0 /\ open = <<>> /\ st = "run"
        /\ c = IF Log[k].k = "tw" THEN Cf(<<>>, RUN, <<>>)
               ELSE Turn(<<IF Log[k].ty = SKIPPED THEN <<6, Log[k].flat[1], Log[k].flat[2]>> ELSE <<1, Log[k].ty>> >>)

Reject(why) == /\ PrintT("REJECTED " \o ToString(k) \o " " \o why)
               /\ st' = "rejected"
               /\ UNCHANGED <<k, i, c, open>>
Accept == st' = "accepted" /\ UNCHANGED <<k, i, c, open>>

\* all the calls of a write, at once
Written ==
  LET t == Tape1
      n == Len(t)
      m == Len(H.calls)
      want == IF H.fail = 0 THEN n ELSE H.fail
      d == {j \in 1..(IF m < n THEN m ELSE n) : H.calls[j] # t[j]}
  IN IF d # {} THEN LET j == CHOOSE x \in d : \A y \in d : x <= y IN Reject("call " \o ToString(j) \o " writing onto a tape, the specification has " \o ToString(t[j]))
     ELSE IF m # want THEN Reject("number of calls writing onto a tape, the specification has " \o ToString(want))
     ELSE IF H.st # (IF H.fail = 0 THEN 0 ELSE 1) THEN Reject("status of writing onto a tape")
     ELSE IF H.st = 0 /\ H.ty # APP /\ H.count # (n * (n + 1)) \div 2 THEN Reject("count of writing onto a tape")
     ELSE Accept

\* reading, call by call
KindOf(w) == IF w[1] <= 10 /\ \A j \in 2..8 : w[j] = 0 THEN w[1] ELSE 0
LastOr(fs, id, dflt) == LET S == {j \in DOMAIN fs : fs[j][1] = id} IN IF S = {} THEN dflt ELSE fs[CHOOSE j \in S : \A x \in S : x <= j][2]
Result == IF H.ty = SKIPPED THEN H.flat
          ELSE IF H.ty = APP THEN <<KindOf(LastOr(c.v, 2, W(0)))>> \o LastOr(c.v, 1, Lit(Utf8Of))[3]
          ELSE Flat(H.ty, c.v)
Read ==
  IF c.s = RUN
  THEN IF i + 1 = H.fail
       THEN IF H.st # 1 THEN Reject("status of a read whose call failed")
            ELSE IF H.n # H.fail THEN Reject("calls after one that failed")
            ELSE Accept
       ELSE IF i = Len(H.calls) \/ H.calls[i + 1][1] \notin Asked(c.stk) THEN Reject("a tape that is not in order")
       ELSE /\ c' = Answered(c.stk, H.calls[i + 1])
            /\ open' = Nest(open, H.calls[i + 1][1])
            /\ i' = i + 1 /\ UNCHANGED <<k, st>>
  ELSE IF H.st # c.s THEN Reject("status of reading from a tape, the specification gives " \o ToString(c.s))
  ELSE IF c.s = OK /\ H.n # i THEN Reject("calls asked for")
  ELSE IF c.s = OK /\ H.v # Result THEN Reject("value read from a tape")
  ELSE Accept

Next == st = "run" /\ (IF H.k = "tw" THEN Written ELSE Read)
Spec == Init /\ [][Next]_vars

Accepted == st # "rejected"
\* reading follows the nesting, and ends where it ends
Nested == /\ open # <<-1>>
          /\ H.k = "tr" /\ c.s = OK => i = Len(H.calls) /\ open = <<>>
=============================================================================
