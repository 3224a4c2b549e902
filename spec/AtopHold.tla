------------------------------ MODULE AtopHold ------------------------------
(***************************************************************************)
(* Which samples of a log exist as objects.  The reader refers to the      *)
(* sample it delivered last and to the one it is building; the caller to   *)
(* those it keeps.  Conversions and rows refer to nothing once they are    *)
(* made.                                                                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

\* What the reader may refer to at most, of which the caller keeps nothing.
HoldSlack == 2
Released(alive, kept) == Cardinality(alive \ kept) <= HoldSlack

\* Memory (bytes) that reading adds, when the largest sample has the given size, and those kept have that total size: as much
\* as the samples that the reader may refer to (and what it builds them from), besides those kept.
MemorySlack == 131072
Flat(grown, most, own) == grown <= HoldSlack * most + 2 * own + MemorySlack
=============================================================================
