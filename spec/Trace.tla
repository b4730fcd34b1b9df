-------------------------------- MODULE Trace --------------------------------
(* Executions recorded from the real code (harness/src/rec.rs), checked against the          *)
(* specification: each recorded history must be one the writer or reader machine takes.      *)
(* The file named by the environment variable TRACE holds one history per line:              *)
(*   k "w": calls <<code, args, status, count, bytes emitted in total>>, bytes               *)
(*   k "r": bytes, limit, calls <<code, args, status, bytes consumed, result>>               *)
(*   k "e" and "d": a number encoded, bytes decoded as a number                              *)
(* off and io: from that offset on the transport failed with I/O error kind io (50: moved    *)
(* nothing), -1 when it did not.  n: calls intended.                                         *)
(* A history that is not a behaviour is reported as REJECTED with its line and reason.       *)
(* Mode says which differences count: "all"; "answers": any value or error will do;          *)
(* "malformed" and "cut": only calls the machine refuses as malformed, or at the end of the  *)
(* source; "limit": only those it, or the code, refuses for the limit; "bytes" and "counts": *)
(* only the bytes, or the counts, of writes; "round": reads of what was just written (the    *)
(* history before it) return it, whatever the bytes between.  A difference that does not     *)
(* count is another property's, and ends the comparison.                                     *)
(* ref holds the outcomes of the same history run again.  "async": run by the blocking API   *)
(* -- what both do alike is excused, what only one does as specified is not.  "faulty": run  *)
(* on a perfect transport -- what goes wrong even there is excused.                          *)
EXTENDS Api, Json, IOUtils, TLC

CONSTANT Mode

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k,      \* the history
          i,      \* calls accepted
          w, r,   \* writer and reader before the next call
          st      \* "run", "accepted", "rejected"
vars == <<k, i, w, r, st>>

H == Log[k]
RECURSIVE Written(_, _, _)
Written(m, ops, j) == IF j > Len(ops) THEN m ELSE Written(WOp(m, Op(ops[j][1], ops[j][2])), ops, j + 1)
Init == /\ k \in DOMAIN Log
        /\ i = 0 /\ st = "run"
        /\ w = IF Mode = "round" /\ Log[k].k = "r" THEN Written(NewWriter(CANON), Log[k - 1].ops, 1) ELSE NewWriter(CANON)
        /\ r = NewReader(IF Log[k].k = "r" THEN Log[k].lim ELSE INF)

Reject(why) == /\ PrintT("REJECTED " \o ToString(k) \o " " \o why)
               /\ st' = "rejected"
               /\ UNCHANGED <<k, i, w, r>>
\* nothing more of this history is compared
Enough == st' = "accepted" /\ i' = i + 1 /\ UNCHANGED <<k, w, r>>

\* the status an I/O error of the transport surfaces as
IoStatus == <<T_UNKNOWN, T_NOTOPEN, T_NOTOPEN, T_NOTOPEN, T_ALREADYOPEN, T_TIMEDOUT, T_EOF>> \o [j \in 1..12 |-> T_UNKNOWN]
Faulty == H.off >= 0
\* a fault on writing, and on reading (where nothing delivered is the end of the source)
WFault(s) == IF H.io = 50 THEN s \in 100..199 ELSE s = IoStatus[H.io + 1]
RFault == IF H.io = 50 THEN T_EOF ELSE IoStatus[H.io + 1]
Matches(want, s) == IF want = ANYERR THEN s \in 100..399 ELSE s = want

\* the outcome of the next call the second time: <<status, count or position, emitted or result>>
HasRef == i < Len(H.ref)
Ref == H.ref[i + 1]

----------------------------------------------------------------------------
(* Writing: the machine is deterministic; a fault cuts the call short at its offset *)

WriteCall ==
  LET c == H.ops[i + 1]
      x == WOp(w, Op(c[1], c[2]))
      n == BytesLen(x.out)
      short == Faulty /\ n > H.off
      last == i + 1 = Len(H.ops)
      before == IF i = 0 THEN 0 ELSE H.ops[i][5]
      same == HasRef /\ Ref = <<c[3], c[4], c[5]>> /\ (last => H.bytes = H.rbytes)
      clean == HasRef /\ Ref[1] = OK /\ Ref[3] = n /\ (c[1] # APPERR => Ref[2] = n - BytesLen(w.out))
               /\ Len(H.rbytes) >= n /\ SubSeq(H.rbytes, 1, n) = x.out
      excused == CASE Mode = "async" -> same
                   [] Mode = "faulty" -> ~clean
                   [] OTHER -> FALSE
      Blame(why) == IF excused THEN Enough ELSE Reject(why)
      Counts == Mode \in {"all", "async", "faulty"}
  IN IF Mode = "async" /\ ~same THEN Reject("the two interfaces differ in a write")
     ELSE IF Mode = "counts"
     THEN IF c[3] = OK /\ c[1] # APPERR /\ c[4] # c[5] - before THEN Reject("count returned")
          ELSE IF last THEN Enough
          ELSE i' = i + 1 /\ UNCHANGED <<k, w, r, st>>
     ELSE IF short
     THEN IF ~WFault(c[3]) THEN Blame("status of a call the transport failed")
          ELSE IF ~last THEN Reject("a call after a failed one")
          ELSE IF H.bytes # SubSeq(x.out, 1, H.off) THEN Blame("bytes before the fault")
          ELSE Enough
     ELSE IF c[3] # OK THEN Blame("status of a write")
     ELSE IF Mode # "round" /\ c[5] # n THEN Blame("bytes emitted")
     ELSE IF Counts /\ c[1] # APPERR /\ c[4] # n - BytesLen(w.out) THEN Blame("count returned")
     ELSE IF ~last THEN w' = x /\ i' = i + 1 /\ UNCHANGED <<k, r, st>>
     ELSE IF H.n # Len(H.ops) THEN Blame("calls missing")
     ELSE IF Mode # "round" /\ H.bytes # x.out THEN Blame("bytes written")
     ELSE st' = "accepted" /\ i' = i + 1 /\ w' = x /\ UNCHANGED <<k, r>>

(* Reading: over the bytes the transport delivers; "round": over those the machine writes for *)
(* the calls of the history before                                                            *)
Given == IF Mode = "round" THEN w.out
         ELSE IF Faulty THEN SubSeq(H.bytes, 1, H.off) ELSE H.bytes

ReadCall ==
  LET c == H.ops[i + 1]
      o == Op(c[1], c[2])
      x == ROp(Given, r, o)
      last == i + 1 = Len(H.ops)
      want == IF Faulty /\ x.s = T_EOF THEN RFault ELSE x.s
      mine == CASE Mode = "malformed" -> want \in {T_UNKNOWN, P_INVALID, P_DEPTH, P_UNKNOWN, P_VERSION}
                [] Mode = "cut" -> want = T_EOF
                [] Mode = "limit" -> want = P_SIZE \/ c[3] = P_SIZE
                [] OTHER -> TRUE
      Differs(y, s, pos, v) == ~Matches(y.s, s) \/ (y.s = OK /\ ((Mode # "round" /\ pos # y.r.pos) \/ v # y.v))
      differs == Differs([x EXCEPT !.s = want], c[3], c[4], c[5])
      same == HasRef /\ c[3] = Ref[1] /\ (c[3] = OK => c[4] = Ref[2] /\ c[5] = Ref[3])
      excused == CASE Mode = "async" -> same
                   [] Mode = "faulty" -> HasRef /\ Differs(ROp(H.bytes, r, o), Ref[1], Ref[2], Ref[3])
                   [] OTHER -> ~mine
  IN IF Mode = "answers" THEN IF c[3] # OK /\ c[3] \notin 100..399 THEN Reject("neither a value nor an error")
                              ELSE IF ~last THEN i' = i + 1 /\ UNCHANGED <<k, w, r, st>>
                              ELSE Enough
     ELSE IF Mode \in {"bytes", "counts"} THEN Enough
     ELSE IF Mode = "async" /\ ~same THEN Reject("the two interfaces differ in a read")
     ELSE IF excused /\ differs THEN Enough
     ELSE IF ~Matches(want, c[3]) THEN Reject("status of a read, the specification gives " \o ToString(want))
     ELSE IF x.s # OK THEN IF ~last THEN Reject("a call after a failed one") ELSE Enough
     ELSE IF Mode # "round" /\ c[4] # x.r.pos THEN Reject("bytes consumed, the specification gives " \o ToString(x.r.pos))
     ELSE IF c[5] # x.v THEN Reject("result of a read, the specification gives " \o ToString(x.v))
     ELSE IF ~last THEN r' = x.r /\ i' = i + 1 /\ UNCHANGED <<k, w, st>>
     ELSE IF H.n # Len(H.ops) THEN Reject("calls missing")
     ELSE IF Mode = "round" /\ c[4] # Len(H.bytes) THEN Reject("bytes left behind the last value")
     ELSE st' = "accepted" /\ i' = i + 1 /\ r' = x.r /\ UNCHANGED <<k, w>>

----------------------------------------------------------------------------
(* Numbers *)

Fit(v) == IF H.sg = 1 THEN SExt(v, H.w) ELSE ZExt(v, H.w)
Val(u) == IF H.sg = 1 THEN UnZig(u) ELSE u
Raw(v) == IF H.sg = 1 THEN Zig(v) ELSE v

Encoded ==
  LET want == UVar(Raw(Fit(H.v)))
  IN IF Mode = "counts"
     THEN IF Len(H.out) # 4 \/ (\E j \in DOMAIN H.n : H.n[j] # Len(H.out[j])) THEN Reject("count of a varint")
          ELSE st' = "accepted" /\ UNCHANGED <<k, i, w, r>>
     ELSE IF \E j \in DOMAIN H.n : H.n[j] # Len(want) THEN Reject("length of a varint")
     ELSE IF Len(H.out) # 4 \/ (\E j \in DOMAIN H.out : H.out[j] # want) THEN Reject("bytes of a varint")
     ELSE st' = "accepted" /\ UNCHANGED <<k, i, w, r>>

\* bits beyond the width, and slices longer than the width's maximum, are not judged
Decoded ==
  LET n == VarScan(H.bytes, 0, 1, VarMax(H.w))
      u == VarWord(SubSeq(H.bytes, 1, n))
      inRange == Val(u) = Fit(Val(u)) /\ (n < 10 \/ H.bytes[10] <= 1)
      good == H.st = 0 /\ H.n = n /\ H.v = Val(u)
  IN IF n > 0 THEN IF inRange /\ ~good THEN Reject("a varint decoded") 
                   ELSE IF H.st \notin {0, 1, 2, 3} THEN Reject("a panic decoding a varint")
                   ELSE st' = "accepted" /\ UNCHANGED <<k, i, w, r>>
     ELSE IF H.by = 2 THEN IF (n = 0 \/ H.w = 8) /\ H.st # 3 THEN Reject("an unterminated varint decoded from a slice")
                           ELSE st' = "accepted" /\ UNCHANGED <<k, i, w, r>>
     ELSE IF H.st # (IF n = 0 THEN 1 ELSE 2) THEN Reject("status of an unterminated varint")
     ELSE st' = "accepted" /\ UNCHANGED <<k, i, w, r>>

Next == /\ st = "run"
        /\ CASE H.k = "d" /\ Mode = "counts" -> st' = "accepted" /\ UNCHANGED <<k, i, w, r>>
             [] H.k = "e" -> Encoded
             [] H.k = "d" -> Decoded
             [] H.k \in {"w", "r"} -> IF H.ops = <<>> THEN (IF H.n = 0 THEN st' = "accepted" /\ UNCHANGED <<k, i, w, r>> ELSE Reject("no calls"))
                                      ELSE IF H.k = "w" THEN WriteCall ELSE ReadCall
Spec == Init /\ [][Next]_vars

Accepted == st # "rejected"
\* the machines' own invariants hold along every recorded history
Sane == /\ \/ H.k = "r" /\ (r.pos <= Len(H.bytes) \/ \E j \in DOMAIN H.ops : H.ops[j][1] = SEEK)
           \/ r.pos = 0
        /\ r.rem >= INF
        /\ (H.k = "r" /\ H.lim # INF) => r.rem <= H.lim
=============================================================================
