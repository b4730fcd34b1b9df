---------------------------- MODULE MC_Transport ----------------------------
(* A message moved through a transport that delivers it in any pieces, is not ready,        *)
(* is interrupted, moves nothing, or fails: the loops around every primitive transfer.       *)
(*                                                                                          *)
(* A message is a sequence of primitive transfers (bytes, varints, byte strings); each is    *)
(* completed before the next begins.  One step of the transport is one call on it.           *)
EXTENDS Wire, FiniteSets, TLC

CONSTANT Thorough

MOVE == 1..3
Steps == MOVE \cup {0, -1}           \* n bytes at most; 0 not ready; -1 interrupted
MOVENOTHING == -2
FAIL == -3

Messages == {<<1>>, <<2>>, <<1, 1>>, <<3, 1>>, <<1, 3, 1>>} \cup (IF Thorough THEN {<<1, 2, 1, 3>>, <<8>>, <<1, 1, 1, 1, 1>>} ELSE {})
Idles == IF Thorough THEN 4 ELSE 3      \* calls that transfer nothing, in one run

RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)

VARIABLES msg,     \* the message
          k, left, \* current primitive, bytes of it left to transfer
          moved,   \* bytes the transport has taken or given
          log,     \* the offsets of the bytes transferred, in order
          sched,   \* steps so far
          idle,    \* calls so far that transferred nothing
          res      \* "run", "ok", "failed", "nothing"
vars == <<msg, k, left, moved, log, sched, idle, res>>

Init == /\ msg \in Messages
        /\ k = 1 /\ left = msg[1] /\ moved = 0 /\ log = <<>> /\ sched = <<>> /\ idle = 0 /\ res = "run"

\* what the caller of the transport does with n bytes transferred
Progress(n) ==
  /\ moved' = moved + n
  /\ log' = log \o [i \in 1..n |-> moved + i]
  /\ IF left > n THEN left' = left - n /\ UNCHANGED <<k, res>>
     ELSE IF k < Len(msg) THEN k' = k + 1 /\ left' = msg[k + 1] /\ UNCHANGED res
     ELSE left' = 0 /\ res' = "ok" /\ UNCHANGED k

Call(s) ==
  /\ res = "run"
  /\ sched' = Append(sched, s)
  /\ UNCHANGED msg
  /\ CASE s > 0 -> Progress(Min(s, left)) /\ UNCHANGED idle
       [] s \in {0, -1} -> idle < Idles /\ idle' = idle + 1 /\ UNCHANGED <<k, left, moved, log, res>>     \* tried again
       [] s = MOVENOTHING -> res' = "nothing" /\ UNCHANGED <<k, left, moved, log, idle>>
       [] s = FAIL -> res' = "failed" /\ UNCHANGED <<k, left, moved, log, idle>>

Next == \E s \in Steps \cup {MOVENOTHING, FAIL} : Call(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E s \in MOVE : Call(s))

\* success means everything was transferred once and in order; a failure keeps what was before it
AllOrError == /\ res = "ok" => moved = Sum(msg, 1)
              /\ log = [i \in 1..moved |-> i]
              /\ res = "ok" \/ moved < Sum(msg, 1)
\* a transport that keeps moving something gets every message through
Through == <>(res # "run")

\* schedules for the harness: every completed one of this message that asks for no more than is left
EmitSched == (res = "ok" /\ msg = <<1, 3, 1>> /\ Sum([i \in DOMAIN sched |-> Max(sched[i], 0)], 1) = moved) => PrintT(ToString(<<9, 0, Len(sched)>> \o sched))

----------------------------------------------------------------------------
(* Repeating schedules: any period up to 2 over many sizes, up to 3 (or 4) over few *)

Many == {1, 2, 3, 7, 100, 0, -1}
Few == {1, 4, 0, -1}
Cycles == {s \in UNION {[1..n -> Many] : n \in 1..2} \cup UNION {[1..n -> Few] : n \in 3..(IF Thorough THEN 5 ELSE 3)} : \E i \in DOMAIN s : s[i] > 0}
ASSUME \A s \in Cycles : PrintT(ToString(<<9, 1, Len(s)>> \o s))

----------------------------------------------------------------------------
(* What each kind of I/O error must surface as; numbered as in the harness *)
IoStatus == <<T_UNKNOWN, T_NOTOPEN, T_NOTOPEN, T_NOTOPEN, T_ALREADYOPEN, T_TIMEDOUT, T_EOF>> \o [i \in 1..12 |-> T_UNKNOWN]
ASSUME \A i \in DOMAIN IoStatus : PrintT(ToString(<<12, i - 1, IoStatus[i]>>))
=============================================================================
