------------------------------ MODULE MCReader ------------------------------
\* AtopReader over every small log: all cuts, all single faults, with and without cgroups.
EXTENDS AtopReader, SequencesExt

CONSTANTS MaxSamples, MaxLen

NB(cg)    == IF cg THEN 4 ELSE 2
Ones(cg)  == [x \in 1..NB(cg) |-> 1]
Plain(cg) == [x \in 1..NB(cg) |-> "ok"]

\* Block lengths 1..MaxLen, cgroup blocks also 0; and the end mark (no system block).
BlkSet(cg) == {b \in [1..NB(cg) -> 0..MaxLen] : b[1] > 0 /\ b[2] > 0} \cup {[Ones(cg) EXCEPT ![1] = 0]}

\* One of the samples of a log is unusual: in its block lengths, or in one or two faults.
Unusual(cg) ==
  {<<b, Plain(cg)>> : b \in BlkSet(cg)}
  \cup {<<Ones(cg), [Plain(cg) EXCEPT ![x] = y, ![w] = z]>> :
          x \in 1..NB(cg), y \in {"bad", "short"}, w \in 1..NB(cg), z \in {"ok", "bad", "short"}}

Place(acc, bf) ==
  [acc EXCEPT !.s = Append(@, [at |-> acc.avail, blk |-> bf[1], fault |-> bf[2]]),
              !.avail = @ + acc.rec + SumTo(bf[1], Len(bf[1]))]
\* The log of the given samples, complete.
Whole(cg, bfs) == FoldLeft(Place, [hdr |-> 1, rec |-> 2, cg |-> cg, avail |-> 1, torn |-> FALSE, s |-> <<>>], bfs)

WholeLogs(n) ==
  UNION {{Whole(cg, [k \in 1..n |-> IF k = o THEN x ELSE <<Ones(cg), Plain(cg)>>]) : o \in 1..(n + 1), x \in Unusual(cg)}
         : cg \in BOOLEAN}

\* Every such log, cut at every place.
MCLogs == UNION {{[f EXCEPT !.avail = a, !.torn = t] : a \in f.hdr..f.avail, t \in BOOLEAN} : f \in UNION {WholeLogs(n) : n \in 0..MaxSamples}}

\* A few logs only, for interleavings and long histories.
FewLogs == UNION {{[f EXCEPT !.avail = @ - c] : c \in {0, 1, 3}}
                  : f \in {Whole(cg, [k \in 1..2 |-> <<Ones(cg), Plain(cg)>>]) : cg \in BOOLEAN}}

\* A complete and a cut log of one sample each.
OneLogs == {[Whole(cg, <<<<Ones(cg), Plain(cg)>>>>) EXCEPT !.avail = @ - c] : cg \in BOOLEAN, c \in {0, 1}}

\* Complete logs of three samples.
ThreeLogs == {Whole(cg, [k \in 1..3 |-> <<Ones(cg), Plain(cg)>>]) : cg \in BOOLEAN}

=============================================================================
