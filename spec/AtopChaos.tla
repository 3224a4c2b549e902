----------------------------- MODULE AtopChaos -----------------------------
(***************************************************************************)
(* Reading bytes of which nothing is known: not a log that was cut or      *)
(* damaged somewhere, but anything at all behind an acceptable header.     *)
(* Whatever the bytes say (any lengths, any counts, any contents), reading *)
(* ends, and in a known way: the reader gets on by at least a record for   *)
(* every sample, and a record that is not there ends it.                   *)
(***************************************************************************)
EXTENDS Integers

\* The errors a call may raise: those of a damaged log (swallowed on request) and those of an inconsistent one.
TruncErrors == {"zlib.error", "EOFError"}
Errors      == TruncErrors \cup {"ValueError"}

\* How an iteration may end.
Ends(raise) == {"end", "ValueError"} \cup (IF raise THEN TruncErrors ELSE {})
\* How reading a header may end, and any other part.
HeaderEnds == {"ok", "ValueError"}
PartEnds   == {"ok"} \cup Errors

\* At most so many samples come out of size bytes behind the header.
MostSamples(size, rec) == size \div rec

=============================================================================
