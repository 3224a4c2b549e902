---------------------------- MODULE AtopCommand ----------------------------
(***************************************************************************)
(* The command: what it prints for which arguments.                        *)
(*                                                                         *)
(* It prints one array per file, whose entries are                         *)
(*   [k |-> "error"]               no parseable output for this version    *)
(*   [k |-> "sample", i]           sample i in full                        *)
(*   [k |-> "row", i, lab, x]      row x of label lab of sample i          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* The only version with parseable output, and the labels that can be asked for.
ParseableVersion == "1.26"
CommandLabels == {"cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "SWP", "PRC", "PRG", "PRM", "PRN"}

Accepts(labels) == \A n \in 1..Len(labels) : labels[n] \in CommandLabels

Unsupported(ver, labels) == labels # <<>> /\ ver # ParseableVersion

\* A file that is no log ("none") has the command fail, and so does a log with a sample that cannot be made sense of
\* ("odd"), unless its samples are not needed.
Fails(is, ver, labels) == is = "none" \/ (is = "odd" /\ ~Unsupported(ver, labels))

ErrorEntry      == [k |-> "error"]
SampleEntry(i)  == [k |-> "sample", i |-> i]
Row(i, lab, x)  == [k |-> "row", i |-> i, lab |-> lab, x |-> x]

\* The entries for sample i; NRows(i, lab) is the number of rows of a label.
OfSample(i, labels, NRows(_, _)) ==
  IF labels = <<>> THEN <<SampleEntry(i)>>
  ELSE FoldLeft(LAMBDA acc, lab : acc \o [x \in 1..NRows(i, lab) |-> Row(i, lab, x)], <<>>, labels)

\* The array for a log of version ver of which n samples are readable.
Expected(ver, n, labels, NRows(_, _)) ==
  IF Unsupported(ver, labels) THEN <<ErrorEntry>>
  ELSE FoldLeft(LAMBDA acc, i : acc \o OfSample(i, labels, NRows), <<>>, [i \in 1..n |-> i])

\* The array for a log whose n readable samples are p samples over and over: its length.
ExpectedLength(ver, n, p, labels, NRows(_, _)) ==
  IF Unsupported(ver, labels) THEN 1
  ELSE (n \div p) * Len(Expected(ver, p, labels, NRows)) + Len(Expected(ver, n % p, labels, NRows))
\* Entry e, given the entries of one round.
EntryOfRound(once, e) == once[((e - 1) % Len(once)) + 1]

\* Keys of a full sample.
EntryKeysFor(ts, cs) == {"header", "record", "sstat"} \cup (IF ts THEN {"tstat"} ELSE {}) \cup (IF cs THEN {"cgroup"} ELSE {})

\* What a run of the command leaves behind: its exit status, and what was written to standard output.  It depends on
\* files and options alone, so that two runs are the same ...
SameRun(a, b) == a.status = b.status /\ a.out = b.out
\* ... unless there is no room for all of it (n: how much there is); then the run does not pass for a success.
NoRoom(run, n) == run.n < n => run.status # 0

=============================================================================
