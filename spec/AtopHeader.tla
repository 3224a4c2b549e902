----------------------------- MODULE AtopHeader -----------------------------
(***************************************************************************)
(* Which byte strings are headers of a readable log (get_header).          *)
(***************************************************************************)
EXTENDS AtopLayout

Magic     == Unsigned(<<239, 190, 237, 254>>)      \* 0xFEEDBEEF
HeaderLen == SizeOf("Header_1_26")

\* The newest supported format, which any unknown version falls back to.
Newest == VersionSeq[Len(VersionSeq)]
NewestMinor == 12

\* The version word: its top bit is a marker, the rest is major (7 bits) and minor (8 bits).
Major(c) == Clip(NumOfPath(c, "Header_1_26", <<"aversion">>), 0, 65535) \div 256 % 128
Minor(c) == Clip(NumOfPath(c, "Header_1_26", <<"aversion">>), 0, 65535) % 256
Semantic(c) == ToString(Major(c)) \o "." \o ToString(Minor(c))

Known(c) == Semantic(c) \in Versions
\* The format used for a log with header c.
FormatOf(c) == IF Known(c) THEN Semantic(c) ELSE Newest

\* <<field, structure>>: the declared lengths of version v.
Lengths(v) ==
  << <<"rawheadlen", Fmt[v].header>>, <<"rawreclen", Fmt[v].record>>, <<"sstatlen", Fmt[v].sstat>>,
     <<IF v = "1.26" THEN "pstatlen" ELSE "tstatlen", Fmt[v].tstat>> >>
  \o (IF HasCgroups(v) THEN << <<"cstatlen", Fmt[v].cstat>> >> ELSE <<>>)

\* Indices of the declared lengths that do not fit version v.
Misfits(c, v) ==
  {k \in 1..Len(Lengths(v)) :
     LET q == Lengths(v)[k]
     IN  NumOfPath(c, Fmt[v].header, <<q[1]>>) # NumOf(SizeOf(q[2]))}

\* The allowed decisions on a header of which n bytes exist: "accept", "reject" (ValueError).
Decisions(c, n, check) ==
  IF n < HeaderLen THEN {"reject"}
  ELSE IF NumOfPath(c, "Header_1_26", <<"magic">>) # Magic THEN {"reject"}
  ELSE IF ~check THEN {"accept"}
  ELSE IF Known(c) \/ (Major(c) = 2 /\ Minor(c) > NewestMinor)
       THEN IF Misfits(c, FormatOf(c)) = {} THEN {"accept"} ELSE {"reject"}
  \* A version that was never supported: lengths of header, record, system or tasks that do not fit are refused.
  ELSE IF Misfits(c, Newest) \cap 1..4 # {} THEN {"reject"} ELSE {"accept", "reject"}

=============================================================================
