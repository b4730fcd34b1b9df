----------------------------- MODULE MC_Envelope -----------------------------
(* Message headers, application errors, and the checks a client makes on them.              *)
(* A scenario is a write history, or given bytes, with the reads that follow and what each   *)
(* must give: [w |-> write operations, b |-> bytes, l |-> limit, r |-> read operations,      *)
(* want |-> <<status, result>> per read].                                                    *)
EXTENDS Api, FiniteSets, TLC

CONSTANTS Family, Thorough

Seqs == {Sz(n) : n \in {0, 1, 127, 128, 255, 256, 16383, 16384, 2097151, 2097152, 134217727}}
        \cup {<<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<1, 0, 0, 128>>, <<255, 255, 255, 255>>, <<254, 255, 255, 255>>, <<255, 255, 255, 15>>, <<0, 0, 0, 16>>}
        \cup {SubSeq(Bit(k), 1, 4) : k \in 0..31} \cup {SubSeq(Dec(Bit(k)), 1, 4) : k \in 1..31}
Name(n) == [i \in 1..n |-> 65 + ((i * 7) % 50)]
Names == {<<>>, <<97>>, <<0>>, <<206, 187>>, <<240, 159, 166, 128, 45, 226, 130, 172>>} \cup {Name(n) : n \in {2, 10, 126, 127, 128, 129, 300}}
         \cup (IF Thorough THEN {Name(16383), Name(16384)} ELSE {})

Sc(w, b, l, r, want) == [w |-> w, b |-> b, l |-> l, r |-> r, want |-> want]
OkW(v) == <<OK, v>>
Msg(t, q, n) == Op(MSG_BEGIN, <<t>> \o q \o n)
MsgEnd == Op(MSG_END, <<>>)
RMsg == Op(MSG_BEGIN, <<>>)
RErr == Op(APPERR, <<>>)
Err1(k, m) == Op(APPERR, <<k>> \o m)

\* alone; with arguments; with an application error; several in a row
Messages ==
  {Sc(<<Msg(t, q, n), MsgEnd>>, <<>>, INF, <<RMsg, MsgEnd>>, <<OkW(<<t>> \o q \o n), OkW(<<>>)>>)
   : t \in 1..4, q \in Seqs, n \in {<<>>, Name(2)}}
  \cup {Sc(<<Msg(t, q, n), MsgEnd>>, <<>>, l, <<RMsg, MsgEnd>>, <<OkW(<<t>> \o q \o n), OkW(<<>>)>>)
        : t \in 1..4, q \in {Sz(0), Sz(300), <<255, 255, 255, 255>>}, n \in Names, l \in {INF, 100000}}
  \* the limit covers the name
  \cup {Sc(<<Msg(2, Sz(300), Name(n))>>, <<>>, n - d, <<RMsg>>, <<IF d = 0 THEN OkW(<<2>> \o Sz(300) \o Name(n)) ELSE <<P_SIZE, <<>>>> >>)
        : n \in {1, 10, 127, 128, 300}, d \in 0..1}
  \cup {Sc(<<Msg(t, Sz(k), Name(k)), Op(STRUCT_BEGIN, <<>>), Op(FIELD_BEGIN, <<5, i>>), Op(I32, W(k)), Op(FIELD_END, <<>>), Op(FIELD_STOP, <<>>), Op(STRUCT_END, <<>>), MsgEnd,
             Msg(5 - t, Sz(k + 1), Name(k + 1)), MsgEnd>>, <<>>, INF,
           <<RMsg, Op(STRUCT_BEGIN, <<>>), Op(FIELD_BEGIN, <<>>), Op(I32, <<>>), Op(FIELD_END, <<>>), Op(FIELD_BEGIN, <<>>), Op(STRUCT_END, <<>>), MsgEnd, RMsg, MsgEnd>>,
           <<OkW(<<t>> \o Sz(k) \o Name(k)), OkW(<<>>), OkW(<<5, i>>), OkW(W(k)), OkW(<<>>), OkW(<<0, 0>>), OkW(<<>>), OkW(<<>>), OkW(<<5 - t>> \o Sz(k + 1) \o Name(k + 1)), OkW(<<>>)>>)
        : t \in 1..4, k \in {0, 1, 200}, i \in {-1, 0, 1, 15, 16, 32767}}
  \cup {Sc([j \in 1..k |-> Msg(((j + t) % 4) + 1, Sz(j * 100), Name(j))], <<>>, INF, [j \in 1..k |-> RMsg],
           [j \in 1..k |-> OkW(<<((j + t) % 4) + 1>> \o Sz(j * 100) \o Name(j))]) : k \in 2..8, t \in 0..3}

\* headers byte by byte: every protocol id, every version and type
Rest == <<172, 2, 3, 102, 111, 111, 9, 9>>
HeadOk(t) == OkW(<<t, 44, 1, 0, 0, 102, 111, 111>>)
SecondOf(b) == LET badv == b % 32 # 1
                   badt == b \div 32 \notin 1..4
               IN IF badv /\ badt THEN <<299, <<>>>>          \* either complaint is right
                  ELSE IF badv THEN <<P_VERSION, <<>>>>
                  ELSE IF badt THEN <<P_INVALID, <<>>>>
                  ELSE HeadOk(b \div 32)
Long(n) == [i \in 1..n |-> IF i < n THEN 129 ELSE 0]
Headers ==
  {Sc(<<>>, <<a, 33 + 32 * t>> \o Rest, INF, <<RMsg>>, <<IF a = 130 THEN HeadOk(t + 1) ELSE <<P_VERSION, <<>>>> >>) : a \in 0..255, t \in 0..3}
  \cup {Sc(<<>>, <<130, b>> \o Rest, INF, <<RMsg>>, <<SecondOf(b)>>) : b \in 0..255}
  \* sequence numbers in longer forms, and too long; names that are not text or not all there
  \cup {Sc(<<>>, <<130, 65>> \o UVarP(q \o <<0, 0, 0, 0>>, p) \o UVarP(W(2), r) \o <<104, 105, 0>>, INF, <<RMsg>>, <<OkW(<<2>> \o q \o <<104, 105>>)>>)
        : q \in {Sz(0), Sz(5), Sz(300)}, p \in 0..3, r \in 0..4}
  \cup {Sc(<<>>, <<130, 65>> \o Long(n) \o <<2, 104, 105>>, INF, <<RMsg>>, <<<<T_UNKNOWN, <<>>>>>>) : n \in {6, 7, 10, 11, 20}}
  \cup {Sc(<<>>, <<130, 65, 1>> \o Long(n) \o <<2, 104, 105>>, INF, <<RMsg>>, <<<<T_UNKNOWN, <<>>>>>>) : n \in {6, 7, 10, 11, 20}}
  \cup {Sc(<<>>, <<130, 65, 1, Len(s)>> \o s \o <<7>>, INF, <<RMsg>>, <<<<P_INVALID, <<>>>>>>)
        : s \in {<<128>>, <<192, 128>>, <<237, 160, 128>>, <<97, 255>>, <<244, 144, 128, 128>>, <<226, 130>>}}
  \cup {Sc(<<>>, SubSeq(<<130, 65>> \o Rest, 1, k), INF, <<RMsg>>, <<<<T_EOF, <<>>>>>>) : k \in 0..7}

----------------------------------------------------------------------------
(* Application errors *)

\* long texts with a character of several bytes at every position around a round length
Longs == {[i \in 1..n |-> 97 + (i % 26)] \o ch \o [i \in 1..m |-> 48 + (i % 10)]
          : n \in UNION {(k - 4)..(k + 1) : k \in {64, 256, 1024, 4096} \cup (IF Thorough THEN {32, 128, 512, 2048, 8192, 16384} ELSE {})},
            ch \in {<<206, 187>>, <<226, 130, 172>>, <<240, 159, 166, 128>>}, m \in {0, 9}}
LongNames == {Sc(<<Msg(2, Sz(7), n), MsgEnd>>, <<>>, INF, <<RMsg, MsgEnd>>, <<OkW(<<2>> \o Sz(7) \o n), OkW(<<>>)>>) : n \in Longs}
LongErrors == {Sc(<<Err1(k, m)>>, <<>>, INF, <<RErr>>, <<OkW(<<k>> \o m)>>) : k \in {0, 6}, m \in Longs}

Texts == {<<>>, <<97>>, <<206, 187, 226, 130, 172>>, Name(127), Name(128), Name(300), Utf8Of}
Written ==
  {Sc(<<Err1(k, m)>>, <<>>, l, <<RErr>>, <<OkW(<<k>> \o m)>>) : k \in 0..10, m \in Texts, l \in {INF, 400}}
  \cup {Sc(<<Err1(k, Name(n))>>, <<>>, n + 2 - d, <<RErr>>, <<IF d = 0 THEN OkW(<<k>> \o Name(n)) ELSE <<P_SIZE, <<>>>> >>) : k \in {0, 7}, n \in {0, 1, 128}, d \in 0..2}
  \cup {Sc(<<Msg(3, Sz(k), Name(k)), Err1(k, Name(k)), MsgEnd, Msg(2, Sz(1), <<>>), Err1(10 - k, <<98>>), MsgEnd>>, <<>>, INF,
           <<RMsg, RErr, MsgEnd, RMsg, RErr, MsgEnd>>,
           <<OkW(<<3>> \o Sz(k) \o Name(k)), OkW(<<k>> \o Name(k)), OkW(<<>>), OkW(<<2>> \o Sz(1)), OkW(<<10 - k, 98>>), OkW(<<>>)>>) : k \in 0..10}

\* fields as another implementation may send them: <<"m", text>>, <<"k", word>>, <<"u", id, code, content>>
Items == {<<"m", <<>>>>, <<"m", <<104, 105>>>>, <<"k", W(3)>>, <<"k", W(0)>>, <<"u", 3, 5, <<8>>>>, <<"u", 9, 8, <<2, 255, 200>>>>, <<"u", 100, 1, <<>>>>,
          <<"u", -1, 12, <<21, 2, 0>>>>, <<"u", 0, 9, <<37, 2, 4>>>>, <<"u", 258, 11, <<1, 133, 1, 97, 4>>>>}
\* bools and what may follow them: elements and keys that are bools, nested bool fields
BoolItems == {<<"u", 5, 1, <<>>>>, <<"u", 6, 2, <<>>>>, <<"u", 7, 9, <<33, 1, 2>>>>, <<"u", 8, 10, <<17, 2>>>>, <<"u", 9, 11, <<1, 17, 1, 2>>>>, <<"u", 10, 12, <<17, 18, 0>>>>,
              <<"u", 11, 9, <<28, 17, 0>>>>, <<"u", 12, 3, <<1>>>>, <<"u", 13, 7, <<1, 2, 1, 2, 1, 2, 1, 2>>>>, <<"m", <<104, 105>>>>, <<"k", W(3)>>}
Kinds == {W(n) : n \in -3..14} \cup {W(127), W(128), W(255), W(256), W(257), W(512 + 3), W(65536 + 4), SExt(Bit(31), 4), SExt(Dec(Bit(31)), 4), W(-128), W(-256 + 5),
                                     W(16777216 + 6), SExt(Add(Bit(31), W(5)), 4)}
RECURSIVE PutItems(_, _, _)
PutItems(w, s, i) ==
  IF i > Len(s) THEN WStructEnd(WFieldStop(w))
  ELSE LET x == s[i]
       IN PutItems(CASE x[1] = "m" -> WBytes(WFieldBegin(w, 8, 1), Len(x[2]), x[2])
                     [] x[1] = "k" -> WI32(WFieldBegin(w, 5, 2), x[2])
                     [] x[1] = "u" -> Put1(Header(w, x[3], x[2]), x[4]), s, i + 1)
Style(k) == [long |-> k % 2, pad |-> IF k > 1 THEN 4 ELSE 0, llist |-> 0]
BytesOf(s, k) == PutItems(WStructBegin(NewWriter(Style(k))), s, 1).out
LastItem(s, c, dflt) == LET S == {i \in DOMAIN s : s[i][1] = c}
                        IN IF S = {} THEN dflt ELSE s[CHOOSE i \in S : \A j \in S : j <= i][2]
KindOf(w) == IF \E n \in 0..10 : w = W(n) THEN w[1] ELSE 0
Meaning(s) == <<KindOf(LastItem(s, "k", W(0)))>> \o LastItem(s, "m", Utf8Of)
Fields ==
  UNION {{Sc(<<>>, BytesOf(s, k) \o <<17, 2>>, INF, <<RErr, Op(FIELD_BEGIN, <<>>)>>, <<OkW(Meaning(s)), OkW(<<1, 1>>)>>) : s \in [1..n -> Items] \cup [1..n -> BoolItems]}
         : n \in 0..3, k \in IF Thorough THEN {0, 1, 2, 3} ELSE {0, 3}}
  \cup {Sc(<<>>, BytesOf(s, k) \o <<17>>, INF, <<RErr>>, <<OkW(Meaning(s))>>)
        : s \in UNION {{<<<<"k", v>>>>, <<<<"m", <<97>>>>, <<"k", v>>>>, <<<<"k", v>>, <<"m", <<98>>>>, <<"k", W(2)>>>>, <<<<"k", W(9)>>, <<"k", v>>>>} : v \in Kinds}, k \in 0..3}
\* and malformed or cut off
BadErrors ==
  {Sc(<<>>, SubSeq(b, 1, k), INF, <<RErr>>, <<<<T_EOF, <<>>>>>>) : k \in 0..7, b \in {BytesOf(<<<<"m", <<104, 105>>>>, <<"k", W(300)>>>>, 0)}}
  \cup {Sc(<<>>, <<24, 1, 200, 21, 4, 0>>, INF, <<RErr>>, <<<<P_INVALID, <<>>>>>>),
        Sc(<<>>, <<24, 1, 97, 21>> \o Long(6) \o <<0>>, INF, <<RErr>>, <<<<T_UNKNOWN, <<>>>>>>),
        Sc(<<>>, <<61, 0>>, INF, <<RErr>>, <<<<P_INVALID, <<>>>>>>), Sc(<<>>, <<62, 0>>, INF, <<RErr>>, <<<<P_INVALID, <<>>>>>>)}

Scenarios == CASE Family = "messages" -> Messages \cup Headers \cup LongNames
               [] Family = "errors" -> Written \cup LongErrors \cup Fields \cup BadErrors

----------------------------------------------------------------------------
(* The helpers: 1 sequence number, 2 name, 3 message type, 4 required field *)

SeqArgs == {W(n) : n \in {0, 1, -1, 2, 255, 256, 65536, -256}} \cup {SExt(Bit(31), 4), SExt(Dec(Bit(31)), 4)}
NameArgs == {<<>>, <<97>>, <<98>>, <<97, 97>>, <<65>>, <<97, 0>>, <<206, 187>>, Name(300), Append(Name(299), 33)}
Verify(which, a, b, bad) == PrintT(ToString(<<10, which, Len(a)>> \o a \o <<Len(b)>> \o b \o <<IF a = b THEN OK ELSE bad>>))
ASSUME Family = "messages" => /\ \A a \in SeqArgs : \A b \in SeqArgs : Verify(1, a, b, 304)
                              /\ \A a \in NameArgs : \A b \in NameArgs : Verify(2, a, b, 303)
                              /\ \A a \in 1..4 : \A b \in 1..4 : Verify(3, <<a>>, <<b>>, 302)
                              /\ \A a \in 0..255 : PrintT(ToString(<<11, a, IF a \in 1..4 THEN OK ELSE P_INVALID>>))

----------------------------------------------------------------------------

VARIABLES sc, ph, i, w, em, r, rs, st
vars == <<sc, ph, i, w, em, r, rs, st>>

Init == /\ sc \in Scenarios
        /\ ph = (IF sc.w = <<>> THEN "read" ELSE "write") /\ i = 0
        /\ w = [NewWriter(CANON) EXCEPT !.out = sc.b] /\ em = <<>>
        /\ r = NewReader(sc.l) /\ rs = <<>> /\ st = OK

EmitW == PrintT(ToString(<<3, Len(sc.w)>> \o Concat([k \in 1..Len(sc.w) |-> <<sc.w[k][1], Len(sc.w[k][2])>> \o sc.w[k][2] \o <<em'[k]>>])
                         \o <<Len(w'.out)>> \o w'.out))
EmitR == PrintT(ToString(<<4, sc.l, Len(w.out)>> \o w.out \o <<Len(rs')>> \o Concat(rs')))

Write == /\ ph = "write"
         /\ LET x == WOp(w, sc.w[i + 1])
            IN w' = x /\ em' = Append(em, Len(x.out) - Len(w.out))
         /\ (i + 1 = Len(sc.w) => EmitW)
         /\ IF i + 1 = Len(sc.w) THEN ph' = "read" /\ i' = 0 ELSE i' = i + 1 /\ UNCHANGED ph
         /\ UNCHANGED <<sc, r, rs, st>>
Read == /\ ph = "read"
        /\ LET op == sc.r[i + 1]
               x == ROp(w.out, r, op)
               want == sc.want[i + 1]
           IN /\ r' = x.r /\ st' = x.s
              /\ rs' = Append(rs, <<op[1], Len(op[2])>> \o op[2] \o <<want[1], x.r.pos, Len(want[2])>> \o want[2])
              /\ ph' = (IF x.s # OK \/ i + 1 = Len(sc.r) THEN "done" ELSE "read")
              /\ i' = i + 1
              \* what was demanded is what the machine does
              /\ Assert(IF want[1] = 299 THEN x.s \in 200..299 ELSE x.s = want[1], <<"status", sc, i, x>>)
              /\ Assert(x.s = OK => x.v = want[2], <<"result", sc, i, x>>)
        /\ (ph' = "done" => EmitR)
        /\ UNCHANGED <<sc, w, em>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars

\* what was written is consumed exactly, budgets never go negative
Whole == (ph = "done" /\ st = OK /\ sc.w # <<>>) => r.pos = Len(w.out)
Budget == r.rem >= INF /\ r.pos <= Len(w.out)
Fresh == (ph = "done" /\ st = OK /\ sc.w # <<>>) => r.stk = <<>> /\ r.last = 0
=============================================================================
