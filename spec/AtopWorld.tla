----------------------------- MODULE AtopWorld -----------------------------
(***************************************************************************)
(* What reading leaves alone.  The world is everything outside the         *)
(* library that a call could change, as a function from aspects to values: *)
(* the source read from, files, standard output and error, and the state   *)
(* of the process.  Every kind of call has a few aspects that it may       *)
(* change; all others are as before when it returns or raises.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* Kinds of calls: of the reader on a stream; conversions of what was read; importing the package; the command, run
\* to success or to failure.
ReaderCalls == {"header", "record", "sstat", "tstat", "cstat", "iter", "next", "close"}
Conversions == {"dict", "rows"}
Calls       == ReaderCalls \cup Conversions \cup {"import", "command", "failing command"}

Touches(call) ==
  CASE call \in ReaderCalls       -> {"position"}
    [] call \in Conversions       -> {}
    [] call = "import"            -> {}
    [] call = "command"           -> {"stdout"}
    [] call = "failing command"   -> {"stdout", "stderr"}

\* The aspects that a call changed although it must not.
Changed(call, before, after) ==
  {a \in DOMAIN before \ Touches(call) : a \notin DOMAIN after \/ before[a] # after[a]}

=============================================================================
