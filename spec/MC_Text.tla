------------------------------ MODULE MC_Text ------------------------------
(* Strings: every kind of well-formed and ill-formed UTF-8 sequence, behind and before      *)
(* ordinary text of every small length, wherever the protocol carries a string.              *)
EXTENDS Api, FiniteSets, TLC

CONSTANT Thorough

Ascii(n) == [i \in 1..n |-> 32 + ((i * 7) % 95)]
Tails == {126, 127, 128, 143, 144, 159, 160, 191, 192, 255}
\* one sequence: every lead byte alone, every lead byte with boundary bytes behind it
Ones == {<<a>> : a \in 128..255}
Twos == {<<a, b>> : a \in 192..255, b \in Tails}
Threes == {<<a, b, c>> : a \in {223, 224, 225, 236, 237, 238, 239, 240}, b \in Tails, c \in {127, 128, 191, 192}}
Fours == {<<a, b, c, d>> : a \in {239, 240, 241, 243, 244, 245, 247}, b \in Tails, c \in {127, 128, 191}, d \in {127, 128, 191, 192}}
Mixed == {<<206, 187, 206>>, <<226, 130, 172, 128>>, <<240, 159, 166, 128, 240, 159>>, <<194, 128, 0>>, <<0>>, <<239, 187, 191>>, <<239, 191, 190>>,
          <<240, 159, 166, 128, 226, 130, 172, 206, 187>>, <<237, 160, 189, 237, 184, 128>>, <<192, 128>>, <<248, 136, 128, 128, 128>>}
Seqs == Ones \cup Twos \cup Threes \cup Fours \cup Mixed
FewSeqs == {<<128>>, <<255>>, <<195>>, <<206, 187>>, <<195, 40>>, <<226, 130>>, <<226, 130, 172>>, <<237, 160, 128>>, <<240, 159, 166>>, <<240, 159, 166, 128>>,
            <<244, 144, 128, 128>>, <<192, 175>>, <<206, 187, 191>>}

Around == UNION {{k - 1, k, k + 1} : k \in {64, 128, 256} \cup (IF Thorough THEN {512, 1024, 4096, 8192} ELSE {1024})}
Befores == (0..34) \cup Around
Afters == (0..18) \cup (IF Thorough THEN {31, 32, 33, 63, 64, 65} ELSE {32, 64})

\* where a string can be: <<operation, bytes before its length, bytes after it>>
Places == {<<<<TEXT, <<>> >>, <<>>, <<>> >>, <<<<BYTES, <<>> >>, <<>>, <<>> >>,
           <<<<VAL, <<132, 1>> >>, <<24>>, <<0>> >>, <<<<VAL, <<132, 1>> >>, <<24, 1, 97, 24>>, <<0>> >>,
           <<<<VAL, <<119, 1>> >>, <<72>>, <<0>> >>, <<<<VAL, <<137, 1>> >>, <<25, 40, 1, 120>>, <<0>> >>, <<<<VAL, <<139, 1>> >>, <<38, 2, 8, 2>>, <<0>> >>,
           <<<<READ_LIST, <<9>> >>, <<56, 0, 1, 65>>, <<>> >>, <<<<READ_LIST, <<132>> >>, <<28, 24>>, <<0>> >>,
           <<<<MSG_BEGIN, <<>> >>, <<130, 33, 5>>, <<>> >>, <<<<APPERR, <<>> >>, <<24>>, <<21, 6, 0>> >>,
           \* a string that is skipped need not be text
           <<<<SKIP, <<8>> >>, <<>>, <<>> >>, <<<<VAL, <<132, 1>> >>, <<24, 1, 97, 40>>, <<0>> >>}

\* what surrounds the sequence: text before it and after it, by place and by how much is combined
Only(op) == {x \in Places : x[1][1] = op}
Groups == {<<"all", pl, s>> : pl \in Only(TEXT), s \in Seqs}
          \cup {<<"around", pl, s>> : pl \in Only(TEXT) \cup Only(MSG_BEGIN), s \in FewSeqs}
          \cup {<<"places", pl, s>> : pl \in Places, s \in FewSeqs}
          \cup {<<"twice", pl, s>> : pl \in Only(TEXT), s \in FewSeqs}

VARIABLES place, text, out
vars == <<place, text, out>>

Init == \E g \in Groups : place = g[2] /\ text = g[3] /\ out = <<g[1]>>
Wrap(bs, as) == \E b \in bs, a \in as : text' = Ascii(b) \o text \o Ascii(a)
Surround == /\ Len(out) = 1
            /\ CASE out[1] = "all" -> Wrap({0, 1, 7, 8, 15, 16, 33}, {0, 1, 8})
                 [] out[1] = "around" -> Wrap(Befores, Afters)
                 [] out[1] = "places" -> Wrap({0, 1, 7, 8, 9, 16, 31, 64, 127, 128, 1024}, {0, 1, 7, 16, 64})
                 [] out[1] = "twice" -> \E u \in FewSeqs, b \in {0, 3, 8}, m \in {0, 1, 5, 8, 16} : text' = Ascii(b) \o text \o Ascii(m) \o u
            /\ out' = <<>>
            /\ UNCHANGED place

Input == place[2] \o UVar(W(Len(text))) \o text \o place[3]
Read == /\ out = <<>>
        /\ \E inp \in {Input} : \E x \in {ROp(inp, NewReader(INF), place[1])} :
             LET v == IF x.s # OK THEN <<>> ELSE x.v
             IN /\ out' = <<x.s, x.r.pos, x.r.stk>>
                /\ PrintT(ToString(<<4, -1, Len(inp)>> \o inp \o <<1, place[1][1], Len(place[1][2])>> \o place[1][2] \o <<x.s, x.r.pos, Len(v)>> \o v))
        /\ UNCHANGED <<place, text>>
Next == Surround \/ Read
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the definition of well-formed text, read off RFC 3629 byte by byte, as a second opinion
RECURSIVE WellFormed(_)
In(s, i, lo, hi) == Len(s) >= i /\ s[i] >= lo /\ s[i] <= hi
Rest(s, n) == SubSeq(s, n + 1, Len(s))
WellFormed(s) ==
  \/ s = <<>>
  \/ In(s, 1, 0, 127) /\ WellFormed(Rest(s, 1))
  \/ In(s, 1, 194, 223) /\ In(s, 2, 128, 191) /\ WellFormed(Rest(s, 2))
  \/ /\ \/ In(s, 1, 224, 224) /\ In(s, 2, 160, 191)
        \/ In(s, 1, 225, 236) /\ In(s, 2, 128, 191)
        \/ In(s, 1, 237, 237) /\ In(s, 2, 128, 159)
        \/ In(s, 1, 238, 239) /\ In(s, 2, 128, 191)
     /\ In(s, 3, 128, 191) /\ WellFormed(Rest(s, 3))
  \/ /\ \/ In(s, 1, 240, 240) /\ In(s, 2, 144, 191)
        \/ In(s, 1, 241, 243) /\ In(s, 2, 128, 191)
        \/ In(s, 1, 244, 244) /\ In(s, 2, 128, 143)
     /\ In(s, 3, 128, 191) /\ In(s, 4, 128, 191) /\ WellFormed(Rest(s, 4))

\* C17: text is accepted exactly when well formed, in whatever place; binaries always are
Exactly == (Len(out) = 3 /\ Len(text) < 300) =>
             out[1] = IF place[1][1] \in {BYTES, SKIP} \/ (place[3] = <<0>> /\ place[2] = <<24, 1, 97, 40>>) \/ WellFormed(text) THEN OK ELSE P_INVALID
Whole == (Len(out) = 3 /\ out[1] = OK) => out[2] = Len(Input) /\ out[3] = <<>>
=============================================================================
