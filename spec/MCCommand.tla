----------------------------- MODULE MCCommand -----------------------------
(***************************************************************************)
(* The command as a process that goes through its files one by one and     *)
(* through each log sample by sample and label by label, against           *)
(* AtopCommand.  A file is [ver, n, rows, is]: version, readable samples,  *)
(* rows per label of its first sample (one more in each further sample),   *)
(* and whether it is a log ("log"), none ("none"), or one whose sample     *)
(* n + 1 cannot be made sense of ("odd").                                  *)
(***************************************************************************)
EXTENDS AtopCommand, FiniteSets

CONSTANTS Files, Labels, MaxFiles, MaxLabels

SomeFiles == {[ver |-> "1.26", n |-> 0, rows |-> 1, is |-> "log"], [ver |-> "1.26", n |-> 2, rows |-> 0, is |-> "log"],
              [ver |-> "1.26", n |-> 1, rows |-> 2, is |-> "log"], [ver |-> "1.26", n |-> 1, rows |-> 1, is |-> "odd"],
              [ver |-> "2.3", n |-> 2, rows |-> 1, is |-> "log"], [ver |-> "2.12", n |-> 0, rows |-> 0, is |-> "log"],
              [ver |-> "2.3", n |-> 0, rows |-> 0, is |-> "odd"], [ver |-> "", n |-> 0, rows |-> 0, is |-> "none"]}

VARIABLES
  files, labels,     \* arguments
  state,             \* "start", "file", "sample", "label", "print", "done", "refused", "failed"
  i, l,              \* sample and label within the current file
  acc,               \* entries collected for the current file
  out,               \* arrays printed
  status             \* exit status, -1 while running
vars == <<files, labels, state, i, l, acc, out, status>>

NRows(f, k, lab) == f.rows + k - 1 + (IF lab = "cpu" THEN 1 ELSE 0)
Current == files[Len(out) + 1]

Init == /\ files = <<>> /\ labels = <<>> /\ state = "start" /\ i = 0 /\ l = 0 /\ acc = <<>> /\ out = <<>> /\ status = -1

\* The arguments are made up one by one.
AddFile  == state = "start" /\ Len(files) < MaxFiles /\ \E f \in Files : files' = Append(files, f) /\ UNCHANGED <<labels, state, i, l, acc, out, status>>
AddLabel == state = "start" /\ Len(labels) < MaxLabels /\ \E x \in Labels : labels' = Append(labels, x) /\ UNCHANGED <<files, state, i, l, acc, out, status>>

Begin == /\ state = "start" /\ files # <<>>
         /\ IF Accepts(labels) THEN state' = "file" /\ UNCHANGED status ELSE state' = "refused" /\ status' = 2
         /\ UNCHANGED <<files, labels, i, l, acc, out>>

Open == /\ state = "file"
        /\ IF Len(out) = Len(files) THEN state' = "done" /\ status' = 0 /\ UNCHANGED acc
           ELSE IF Current.is = "none" THEN state' = "failed" /\ status' = 1 /\ UNCHANGED acc
           ELSE IF labels # <<>> /\ Current.ver # ParseableVersion THEN state' = "print" /\ acc' = <<ErrorEntry>> /\ UNCHANGED status
           ELSE state' = "sample" /\ acc' = <<>> /\ UNCHANGED status
        /\ i' = 0 /\ l' = 0 /\ UNCHANGED <<files, labels, out>>

Read == /\ state = "sample"
        /\ IF i = Current.n THEN /\ IF Current.is = "odd" THEN state' = "failed" /\ status' = 1 ELSE state' = "print" /\ UNCHANGED status
                                 /\ UNCHANGED <<i, l, acc>>
           ELSE /\ UNCHANGED status /\ i' = i + 1 /\ l' = 1
                /\ IF labels = <<>> THEN acc' = Append(acc, SampleEntry(i + 1)) /\ UNCHANGED state
                                    ELSE state' = "label" /\ UNCHANGED acc
        /\ UNCHANGED <<files, labels, out>>

Label == /\ state = "label"
         /\ IF l > Len(labels) THEN state' = "sample" /\ UNCHANGED <<l, acc>>
            ELSE /\ acc' = acc \o [x \in 1..NRows(Current, i, labels[l]) |-> Row(i, labels[l], x)]
                 /\ l' = l + 1 /\ UNCHANGED state
         /\ UNCHANGED <<files, labels, i, out, status>>

PrintArray == state = "print" /\ out' = Append(out, acc) /\ state' = "file" /\ UNCHANGED <<files, labels, i, l, acc, status>>

Run == Begin \/ Open \/ Read \/ Label \/ PrintArray
Next == AddFile \/ AddLabel \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Run)

---------------------------------------------------------------------------

Wanted(f) == Expected(f.ver, f.n, labels, LAMBDA k, lab : NRows(f, k, lab))

\* C16, C17: each array is what its file and the labels call for, whatever the other files are.
AsExpected == \A k \in 1..Len(out) : out[k] = Wanted(files[k])
\* One array per file, in order, when the command succeeds; nothing when it is refused.
Whole   == state = "done" => status = 0 /\ Len(out) = Len(files)
Refused == state = "refused" => status # 0 /\ out = <<>> /\ ~Accepts(labels)
\* C17: the rows are in the order of samples, then of labels as requested, then of rows; each label is complete.
Ordered_ == \A k \in 1..Len(out) : \A a, b \in 1..Len(out[k]) :
   a < b /\ out[k][a].k = "row" =>
     \/ out[k][a].i < out[k][b].i
     \/ /\ out[k][a].i = out[k][b].i
        /\ \E p, q \in 1..Len(labels) : /\ labels[p] = out[k][a].lab /\ labels[q] = out[k][b].lab
                                        /\ p < q \/ (p = q /\ out[k][a].x < out[k][b].x)
\* C17: nothing but rows, or nothing but a single error.
Pure == \A k \in 1..Len(out) : LET kinds == {out[k][a].k : a \in 1..Len(out[k])} IN
   /\ Cardinality(kinds) <= 1
   /\ labels # <<>> => "sample" \notin kinds
   /\ labels = <<>> => kinds \subseteq {"sample"} /\ Len(out[k]) = files[k].n
   /\ "error" \in kinds => Len(out[k]) = 1 /\ files[k].ver # ParseableVersion
\* C19: it fails because of a file that cannot be read, after the arrays of all files before it, and never else.
Bad(f) == Fails(f.is, f.ver, labels)
Failed == /\ state = "failed" => status # 0 /\ Len(out) < Len(files) /\ Bad(files[Len(out) + 1])
          /\ status = 0 => \A k \in 1..Len(files) : ~Bad(files[k])
          /\ \A k \in 1..Len(out) : ~Bad(files[k])
\* What was printed stays printed.
Append_ == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out]_vars
Ends == (state \notin {"start"}) ~> (status >= 0)

\* The array for a log of repetitions is known from one round (ExpectedLength, EntryOfRound).
ASSUME \A ver \in {"1.26", "2.3"}, p \in 1..3, n \in 0..8, few \in {0, 1}, labs \in {<<>>, <<"cpu">>, <<"DSK", "cpu", "DSK">>} :
  LET Round(k) == ((k - 1) % p) + 1
      NR(k, lab) == Round(k) - 1 + few + (IF lab = "cpu" THEN 1 ELSE 0)
      all == Expected(ver, n, labs, NR)
  IN  /\ Len(all) = ExpectedLength(ver, n, p, labs, NR)
      /\ \A e \in 1..Len(all) : EntryOfRound(Expected(ver, p, labs, NR), e) = IF "i" \in DOMAIN all[e] THEN [all[e] EXCEPT !.i = Round(@)] ELSE all[e]

=============================================================================
