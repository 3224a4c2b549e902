------------------------------ MODULE MCParse ------------------------------
(***************************************************************************)
(* Parseable rows: the columns of every label are well defined, and a      *)
(* machine that gains and loses disks, interfaces, cores and processes one *)
(* at a time has the rows that C14 and C15 ask for.                        *)
(***************************************************************************)
EXTENDS AtopParse

CONSTANTS
  Cores,      \* core counts
  Changes     \* entries that differ from the others

---------------------------------------------------------------------------
\* Columns.

StructOf(lab, a) == CASE a = "H" -> Fmt[V].header [] a = "R" -> Fmt[V].record [] a = "S" -> Fmt[V].sstat
                      [] a = "E" -> IF lab \in TaskLabels THEN Fmt[V].tstat ELSE TableField(lab).t
Target(lab, col) == At(StructOf(lab, col.a), col.p)
Labels == DOMAIN Columns

ASSUME \A lab \in Labels : \A i, j \in 1..Len(Columns[lab]) :
         i # j => Columns[lab][i].k # Columns[lab][j].k
\* Every column denotes a field, of a type that the column's kind makes sense for, of a structure that the label is about.
ASSUME \A lab \in Labels : \A i \in 1..Len(Columns[lab]) : LET c == Columns[lab][i] IN
         /\ c.f \in {"num", "kib", "sum", "byte", "flag"} => Target(lab, c).t \in Prims /\ Target(lab, c).k = "one"
         /\ c.f \in {"kib", "sum", "flag"} => Target(lab, c).t \notin {"chr", "f32"}
         /\ c.f = "byte" => Target(lab, c).t = "chr"
         /\ c.f = "sum" => At(Fmt[V].sstat, c.q).t = Target(lab, c).t /\ c.q # c.p
         /\ c.f = "text" => Target(lab, c).k = "str" \/ Target(lab, c).t = "chr"
\* No statistic occurs twice in a row, apart from the thread group id, which is the process id.
ASSUME \A lab \in Labels : \A i, j \in 1..Len(Columns[lab]) : LET a == Columns[lab][i]  b == Columns[lab][j] IN
         i < j /\ a.f \notin {"index", "const", "flag"} /\ <<a.a, a.p>> = <<b.a, b.p>> => <<lab, a.k, b.k>> = <<"PRG", "pid", "tgid">>
\* One-row labels have no columns about an entry.
ASSUME \A lab \in OneRow : \A i \in 1..Len(Columns[lab]) : Columns[lab][i].a # "E"
ASSUME \A lab \in DOMAIN Table : TableField(lab).k = "arr"
ASSUME \A lab \in DOMAIN Table : \A x \in {0, 1, TableField(lab).c - 1} : EntryAt(lab, x) = At(Fmt[V].sstat, Append(Table[lab], x)).off
ASSUME TaskLabels \cup OneRow \cup DOMAIN Table = Labels /\ TaskLabels \cap (OneRow \cup DOMAIN Table) = {}

---------------------------------------------------------------------------
\* The machine.  base: whether entries are named to begin with; toggled: those that differ from it.

Named == DOMAIN Table \ {"cpu"}
Spots(lab) == {0, 1, 2, TableField(lab).c - 2, TableField(lab).c - 1}

VARIABLES base, toggled, cores, tasks, ss, rows    \* rows: of every label
vars == <<base, toggled, cores, tasks, ss, rows>>

Le8(x) == <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, x \div 16777216, 0, 0, 0, 0>>
Nrcpu == At(Fmt[V].sstat, <<"cpu", "nrcpu">>).off
NameOff(lab, x) == EntryAt(lab, x) + Layout[TableField(lab).t].f["name"].off

\* The bytes: a seed of 0 leaves everything unnamed, one of -65 names everything "AAAA...".
Made(b, tog, n) ==
  [seed |-> IF b THEN -65 ELSE 0,
   pokes |-> Ordered(SetToSeq({[o |-> NameOff(t[1], t[2]), b |-> <<IF b THEN 0 ELSE 66>>] : t \in tog}) \o <<[o |-> Nrcpu, b |-> Le8(n)]>>)]

All(c, t) == [lab \in Labels |-> Rows(lab, c, t)]

Init == /\ base \in BOOLEAN /\ toggled = {} /\ cores = 1 /\ tasks = 0 /\ ss = Made(base, {}, 1) /\ rows = All(ss, 0)
Toggle(lab, x) == /\ Cardinality(toggled) < Changes /\ <<lab, x>> \notin toggled
                  /\ toggled' = toggled \cup {<<lab, x>>} /\ ss' = Made(base, toggled', cores) /\ UNCHANGED <<base, cores, tasks>>
Core(n) == cores = 1 /\ cores' = n /\ ss' = Made(base, toggled, n) /\ UNCHANGED <<base, toggled, tasks>>
Fork  == tasks < 2 /\ tasks' = tasks + 1 /\ UNCHANGED <<base, toggled, cores, ss>>
Step == (\E lab \in Named : \E x \in Spots(lab) : Toggle(lab, x)) \/ (\E n \in Cores : Core(n)) \/ Fork
Next == Step /\ rows' = All(ss', tasks')
Spec == Init /\ [][Next]_vars

N_(lab) == rows[lab]
Cap(lab) == TableField(lab).c
HasName(lab, x) == IF <<lab, x>> \in toggled THEN ~base ELSE base

\* C14: one row, or the named entries in front of the first unnamed one, at most the capacity.
One     == \A lab \in OneRow : N_(lab) = 1
Leading == \A lab \in Named : /\ N_(lab) \in 0..Cap(lab)
                              /\ \A x \in 0..(N_(lab) - 1) : HasName(lab, x)
                              /\ N_(lab) < Cap(lab) => ~HasName(lab, N_(lab))
PerCoreRows == N_("cpu") = IF cores > Cap("cpu") THEN Cap("cpu") ELSE cores
\* C15: one row per task.
PerTask == \A lab \in TaskLabels : N_(lab) = tasks
\* What happens to one table changes the rows of no other.
OneAtATime == [][Cardinality({lab \in DOMAIN Table : rows'[lab] # rows[lab]}) <= 1]_vars
\* Entries of different rows do not overlap.
Apart == \A lab \in DOMAIN Table : \A x \in 0..(N_(lab) - 2) : x < 3 => EntryAt(lab, x + 1) - EntryAt(lab, x) = SizeOf(TableField(lab).t)

=============================================================================
