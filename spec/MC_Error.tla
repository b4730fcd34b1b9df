------------------------------- MODULE MC_Error -------------------------------
(* What an error holds -- family, kind, message -- on its way from where it arises to what   *)
(* the caller sees: numbers become kinds or are refused, kinds and messages become errors,   *)
(* errors of the transport, of texts, of numbers and of allocation become errors of ours.    *)
EXTENDS Wire, FiniteSets, TLC

CONSTANT Thorough

\* families and their kinds; the statuses are 100 * family + kind
TRANSPORT == 1
PROTOCOL == 2
APPLICATION == 3
Kinds == <<0..6, 0..6, 0..10>>
Code(f, k) == 100 * f + k
\* what a number that is no kind of the family is refused with
Refused == <<Code(PROTOCOL, 0), Code(PROTOCOL, 0), Code(APPLICATION, 0)>>

\* what an error is shown as: the texts of Thrift, by family and kind
Texts1 == <<
  <<<<116, 114, 97, 110, 115, 112, 111, 114, 116, 32, 101, 114, 114, 111, 114>>,
             <<110, 111, 116, 32, 111, 112, 101, 110>>,
             <<97, 108, 114, 101, 97, 100, 121, 32, 111, 112, 101, 110>>,
             <<116, 105, 109, 101, 100, 32, 111, 117, 116>>,
             <<101, 110, 100, 32, 111, 102, 32, 102, 105, 108, 101>>,
             <<110, 101, 103, 97, 116, 105, 118, 101, 32, 115, 105, 122, 101, 32, 109, 101, 115, 115, 97, 103, 101>>,
             <<109, 101, 115, 115, 97, 103, 101, 32, 116, 111, 111, 32, 108, 111, 110, 103>>>>,
  <<<<112, 114, 111, 116, 111, 99, 111, 108, 32, 101, 114, 114, 111, 114>>,
             <<98, 97, 100, 32, 100, 97, 116, 97>>,
             <<110, 101, 103, 97, 116, 105, 118, 101, 32, 109, 101, 115, 115, 97, 103, 101, 32, 115, 105, 122, 101>>,
             <<109, 101, 115, 115, 97, 103, 101, 32, 116, 111, 111, 32, 108, 111, 110, 103>>,
             <<105, 110, 118, 97, 108, 105, 100, 32, 116, 104, 114, 105, 102, 116, 32, 118, 101, 114, 115, 105, 111, 110>>,
             <<110, 111, 116, 32, 105, 109, 112, 108, 101, 109, 101, 110, 116, 101, 100>>,
             <<109, 97, 120, 105, 109, 117, 109, 32, 115, 107, 105, 112, 32, 100, 101, 112, 116, 104, 32, 114, 101, 97, 99, 104, 101, 100>>>>,
  <<<<115, 101, 114, 118, 105, 99, 101, 32, 101, 114, 114, 111, 114>>,
             <<117, 110, 107, 110, 111, 119, 110, 32, 115, 101, 114, 118, 105, 99, 101, 32, 109, 101, 116, 104, 111, 100>>,
             <<119, 114, 111, 110, 103, 32, 109, 101, 115, 115, 97, 103, 101, 32, 116, 121, 112, 101, 32, 114, 101, 99, 101, 105, 118, 101, 100>>,
             <<117, 110, 107, 110, 111, 119, 110, 32, 109, 101, 116, 104, 111, 100, 32, 114, 101, 112, 108, 121, 32, 114, 101, 99, 101, 105, 118, 101, 100>>,
             <<111, 117, 116, 32, 111, 102, 32, 111, 114, 100, 101, 114, 32, 115, 101, 113, 117, 101, 110, 99, 101, 32, 105, 100>>,
             <<109, 105, 115, 115, 105, 110, 103, 32, 109, 101, 116, 104, 111, 100, 32, 114, 101, 115, 117, 108, 116>>,
             <<114, 101, 109, 111, 116, 101, 32, 115, 101, 114, 118, 105, 99, 101, 32, 116, 104, 114, 101, 119, 32, 101, 120, 99, 101, 112, 116, 105, 111, 110>>,
             <<112, 114, 111, 116, 111, 99, 111, 108, 32, 101, 114, 114, 111, 114>>,
             <<105, 110, 118, 97, 108, 105, 100, 32, 116, 114, 97, 110, 115, 102, 111, 114, 109>>,
             <<105, 110, 118, 97, 108, 105, 100, 32, 112, 114, 111, 116, 111, 99, 111, 108, 32, 114, 101, 113, 117, 101, 115, 116, 101, 100>>,
             <<117, 110, 115, 117, 112, 112, 111, 114, 116, 101, 100, 32, 112, 114, 111, 116, 111, 99, 111, 108, 32, 99, 108, 105, 101, 110, 116>>>>>>

Numbers == {W(n) : n \in IF Thorough THEN -600..600 ELSE -20..40} \cup {W(n) : n \in {127, 128, 255, 256, 257, 262, 266, 65536, 65542, 16777216, 16777218}}
           \cup {SExt(Bit(31), 4), SExt(Dec(Bit(31)), 4), SExt(Add(Bit(31), W(3)), 4)} \cup {W(-128), W(-256), W(-250)}
Texts == {<<>>, <<97>>, <<0>>, <<32, 97, 32>>, <<206, 187, 226, 130, 172, 240, 159, 166, 128>>, [i \in 1..100 |-> 97 + (i % 26)], [i \in 1..5000 |-> 65 + (i % 20)],
          <<103, 101, 110, 101, 114, 97, 108, 32, 114, 101, 109, 111, 116, 101, 32, 101, 114, 114, 111, 114>>}

\* I/O errors, numbered as in the harness, and by number of the operating system
IoKinds == <<0, 1, 1, 1, 2, 3, 4>> \o [i \in 1..33 |-> 0]
OsKind(n) == CASE n \in {104, 107, 111} -> 1 [] n = 17 -> 2 [] n = 110 -> 3 [] OTHER -> 0
OsNumbers == {1, 2, 4, 5, 9, 11, 12, 13, 17, 22, 28, 32, 98, 99, 103, 104, 107, 110, 111}
NotText == {<<128>>, <<97, 255>>, <<192, 128>>, <<237, 160, 128>>, <<244, 144, 128, 128>>, <<226, 130>>, [i \in 1..300 |-> IF i = 250 THEN 200 ELSE 97]}

Sources ==
  {<<"number", f, v, <<>>>> : f \in 1..3, v \in Numbers}
  \cup UNION {{<<"kind", f, k, m>> : k \in Kinds[f], m \in Texts} : f \in 1..3}
  \cup {<<"text", 0, 0, m>> : m \in Texts}
  \cup {<<"io", 0, i, m>> : i \in DOMAIN IoKinds, m \in {<<>>, <<97>>, <<206, 187>>}}
  \cup {<<"os", 0, n, <<>>>> : n \in OsNumbers}
  \cup {<<"utf8", 0, 0, m>> : m \in NotText}
  \cup {<<"int", 0, n, <<>>>> : n \in 0..3} \cup {<<"alloc", 0, n, <<>>>> : n \in 0..2}
  \cup {<<"field", 0, n, m>> : n \in 0..1, m \in {<<>>, <<97>>, <<206, 187>>}}
  \cup {<<"id", 0, n, <<>>>> : n \in {-1, 0, 1, 15, 127, 128, 32767, -32768, 99999}}
NOID == 99999

VARIABLES src, form, family, kind, msg
vars == <<src, form, family, kind, msg>>
Init == src \in Sources /\ form = "source" /\ family = 0 /\ kind = -1 /\ msg = <<>>

Kind1(f, k, m) == form' = "kind" /\ family' = f /\ kind' = k /\ msg' = m
Refuse(s) == form' = "error" /\ family' = s \div 100 /\ kind' = s % 100 /\ msg' = <<>>
Fine(k) == form' = "fine" /\ family' = 0 /\ kind' = k /\ msg' = <<>>
IsKind(f, v) == \E k \in Kinds[f] : v = W(k)

\* where it arises
Arise ==
  /\ form = "source" /\ UNCHANGED src
  /\ CASE src[1] = "number" -> IF IsKind(src[2], src[3]) THEN Kind1(src[2], src[3][1], <<>>) ELSE Refuse(Refused[src[2]])
       [] src[1] = "kind" -> Kind1(src[2], src[3], src[4])
       [] src[1] = "text" -> Kind1(APPLICATION, 0, src[4])
       [] src[1] = "io" -> Kind1(TRANSPORT, IoKinds[src[3]], src[4])
       [] src[1] = "os" -> Kind1(TRANSPORT, OsKind(src[3]), <<>>)
       [] src[1] = "utf8" -> Kind1(PROTOCOL, 1, <<>>)
       [] src[1] = "int" -> Kind1(PROTOCOL, 1, <<>>)
       [] src[1] = "alloc" -> Kind1(PROTOCOL, 3, <<>>)
       [] src[1] = "field" -> IF src[3] = 1 THEN Fine(0) ELSE Refuse(Code(PROTOCOL, 0))
       [] src[1] = "id" -> IF src[3] # NOID THEN Fine(src[3]) ELSE Refuse(Code(PROTOCOL, 0))
\* into the information of its family, and into an error
Inform == form = "kind" /\ form' = "info" /\ UNCHANGED <<src, family, kind, msg>>
Raise == form \in {"kind", "info"} /\ form' = "error" /\ UNCHANGED <<src, family, kind, msg>>

Which == [number |-> 1, kind |-> 2, text |-> 3, io |-> 4, os |-> 5, utf8 |-> 6, int |-> 7, alloc |-> 8, field |-> 9, id |-> 10]
Args == CASE src[1] = "number" -> <<src[2]>> \o src[3]
          [] src[1] = "kind" -> <<src[2], src[3]>> \o src[4]
          [] src[1] = "io" -> <<src[3] - 1>> \o src[4]
          [] src[1] \in {"text", "utf8"} -> src[4]
          [] src[1] \in {"field"} -> <<src[3]>> \o src[4]
          [] OTHER -> <<src[3]>>
Status == IF form = "error" /\ ~(src[1] = "number" /\ IsKind(src[2], src[3])) THEN Code(family, kind) ELSE 0
Shown == IF Status = 0 THEN <<>> ELSE Texts1[family][kind + 1]
Emit == PrintT(ToString(<<15, Which[src[1]], Len(Args)>> \o Args \o <<Status, kind, Len(Shown)>> \o Shown))
See == form \in {"error", "fine"} /\ Emit /\ form' = "seen" /\ UNCHANGED <<src, family, kind, msg>>
Next == Arise \/ Inform \/ Raise \/ See
Spec == Init /\ [][Next]_vars

\* an error never changes its family, kind or message once it has them
Kept == [][form # "source" => UNCHANGED <<family, kind, msg>>]_vars
\* there are no kinds but those
Known == form \in {"kind", "info", "error"} => kind \in Kinds[family]
\* and within its family an error is known by what it is shown as
Told == \A f \in 1..3 : Len(Texts1[f]) = Cardinality(Kinds[f]) /\ \A a, b \in DOMAIN Texts1[f] : Texts1[f][a] = Texts1[f][b] => a = b
ASSUME Told
=============================================================================
