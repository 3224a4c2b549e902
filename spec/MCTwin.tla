------------------------------ MODULE MCTwin ------------------------------
(***************************************************************************)
(* The same command run twice, as two processes that know nothing of one   *)
(* another: whatever their surroundings are, they print the same.  Each    *)
(* prints to something that takes so many arrays (full at some time, or    *)
(* never).                                                                 *)
(***************************************************************************)
EXTENDS AtopCommand, FiniteSets

CONSTANTS Labels, MaxFiles, MaxLabels

VARIABLES files, labels, room,      \* room: of each run
          s1, i1, l1, a1, o1, x1,   \* run 1: state, sample, label, entries, output, exit status
          s2, i2, l2, a2, o2, x2
args == <<files, labels, room>>
run1 == <<s1, i1, l1, a1, o1, x1>>
run2 == <<s2, i2, l2, a2, o2, x2>>
vars == <<args, run1, run2>>

Few == {[ver |-> "1.26", n |-> 2, rows |-> 1, is |-> "log"], [ver |-> "2.3", n |-> 1, rows |-> 1, is |-> "log"],
        [ver |-> "1.26", n |-> 0, rows |-> 1, is |-> "odd"], [ver |-> "", n |-> 0, rows |-> 0, is |-> "none"]}

A == INSTANCE MCCommand WITH Files <- Few, state <- s1, i <- i1, l <- l1, acc <- a1, out <- o1, status <- x1
B == INSTANCE MCCommand WITH Files <- Few, state <- s2, i <- i2, l <- l2, acc <- a2, out <- o2, status <- x2

Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}

Init == /\ files \in Upto(Few, MaxFiles) \ {<<>>} /\ labels \in Upto(Labels, MaxLabels) /\ room \in [1..2 -> 0..MaxFiles]
        /\ s1 = "start" /\ i1 = 0 /\ l1 = 0 /\ a1 = <<>> /\ o1 = <<>> /\ x1 = -1
        /\ s2 = "start" /\ i2 = 0 /\ l2 = 0 /\ a2 = <<>> /\ o2 = <<>> /\ x2 = -1

\* No room for the array.
Full1 == s1 = "print" /\ Len(o1) = room[1] /\ s1' = "failed" /\ x1' = 120 /\ UNCHANGED <<i1, l1, a1, o1>>
Full2 == s2 = "print" /\ Len(o2) = room[2] /\ s2' = "failed" /\ x2' = 120 /\ UNCHANGED <<i2, l2, a2, o2>>

Step1 == (IF s1 = "print" /\ Len(o1) = room[1] THEN Full1 ELSE A!Run) /\ UNCHANGED <<args, run2>>
Step2 == (IF s2 = "print" /\ Len(o2) = room[2] THEN Full2 ELSE B!Run) /\ UNCHANGED <<args, run1>>
Next  == Step1 \/ Step2
Spec  == Init /\ [][Next]_vars /\ WF_vars(Step1) /\ WF_vars(Step2)

Ended(x) == x >= 0
\* How much there is to print.
All == Cardinality({n \in 1..MaxFiles : n <= Len(files) /\ Accepts(labels) /\ \A m \in 1..n : ~Fails(files[m].is, files[m].ver, labels)})
One == [status |-> x1, out |-> o1, n |-> Len(o1)]
Two == [status |-> x2, out |-> o2, n |-> Len(o2)]

\* At any time what one has printed is the beginning of what the other has printed.
OneBegins == IsPrefix(o1, o2) \/ IsPrefix(o2, o1)
Alike    == Ended(x1) /\ Ended(x2) /\ room[1] >= All /\ room[2] >= All => SameRun(One, Two)
Short    == Ended(x1) => NoRoom(One, All)
Success  == x1 = 0 => o1 = [n \in 1..Len(files) |-> A!Wanted(files[n])]
EndsBoth == <>(Ended(x1) /\ Ended(x2))

=============================================================================
