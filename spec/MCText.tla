------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Texts: a UTF-8 decoder that works byte by byte and drops what it cannot *)
(* decode, against Utf8Text; and arithmetic on magnitudes.  Bytes are      *)
(* appended one by one, so every string over Alphabet up to MaxLen occurs. *)
(***************************************************************************)
EXTENDS AtopBytes

CONSTANTS Alphabet, MaxLen
VARIABLES str
Init == str = <<>>
Next == Len(str) < MaxLen /\ \E x \in Alphabet : str' = Append(str, x)
Spec == Init /\ [][Next]_str

Out == Utf8Text(str)

\* Decoding gives well-formed text only, and well-formed text is left as it is.
Idempotent  == Utf8Text(Out) = Out
AsciiStays  == \A i \in 1..Len(str) : str[i] < 128 => \E j \in 1..Len(Out) : Out[j] = str[i]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
NothingNew  == \A x \in Alphabet : Count(Out, x) <= Count(str, x)
AsciiKept   == \A x \in {y \in Alphabet : y < 128} : Count(Out, x) = Count(str, x)
NoLoneLead  == \A i \in 1..Len(Out) : Out[i] \notin {192, 193, 245, 248, 255}
\* Decoding is local: an ASCII byte separates.
Local == \A i \in 1..Len(str) : str[i] < 128 =>
           Out = Utf8Text(SubSeq(str, 1, i - 1)) \o <<str[i]>> \o Utf8Text(SubSeq(str, i + 1, Len(str)))
\* Cut at the first NUL.
Cut == /\ \A i \in 1..Len(CText(str)) : CText(str)[i] # 0
       /\ Len(CText(str)) < Len(str) => str[Len(CText(str)) + 1] = 0
       /\ CText(str) = SubSeq(str, 1, Len(CText(str)))

\* Numbers: the string read as a little-endian number, signed and unsigned.
Neg(x) == Num(IF x.m = <<>> THEN 0 ELSE 1 - x.sg, x.m)
Numbers == Len(str) > 0 =>
  LET u == Unsigned(str)  s == Signed(str)
  IN  /\ (s.sg = 1) <=> str[Len(str)] >= 128
      /\ s.sg = 0 => s = u
      /\ s.sg = 1 => NumAdd(u, Neg(s)) = Num(0, [i \in 1..(Len(str) + 1) |-> IF i > Len(str) THEN 1 ELSE 0])
      /\ NumAdd(u, Neg(u)) = NumOf(0)
      /\ NumMul(u, 1024) = NumAdd(NumMul(u, 1000), NumMul(u, 24))
      /\ Len(str) <= 3 => Clip(u, 0, 16777215) = str[1] + 256 * Digit(str, 2) + 65536 * Digit(str, 3)

=============================================================================
