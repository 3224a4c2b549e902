------------------------------ MODULE MCFormat ------------------------------
(***************************************************************************)
(* The format tables are consistent, and the decision about a header is    *)
(* the one that C02 and C03 ask for.  A header is made up step by step:    *)
(* version word, deviating lengths, magic number, bytes that exist.        *)
(***************************************************************************)
EXTENDS AtopHeader

VARIABLES word, mis, magic, n, chk, hdr
vars == <<word, mis, magic, n, chk, hdr>>

---------------------------------------------------------------------------
\* Tables.

\* Sizes that the C compiler gives the structures (as atop declares them in its log headers).
Sizes == [
  v1_26 |-> <<480, 80, 88368, 616>>,   v2_3 |-> <<480, 96, 711904, 784>>,   v2_4 |-> <<480, 96, 716656, 840>>,
  v2_5 |-> <<480, 96, 716656, 840>>,   v2_6 |-> <<480, 96, 716656, 840>>,   v2_7 |-> <<480, 96, 954360, 840>>,
  v2_8 |-> <<480, 96, 1021960, 968>>,  v2_9 |-> <<480, 96, 1021960, 968>>,  v2_10 |-> <<480, 96, 1030216, 992>>,
  v2_11 |-> <<480, 96, 1064016, 968, 432>>, v2_12 |-> <<480, 96, 1064016, 968, 432>> ]
SizeKey == << "v1_26", "v2_3", "v2_4", "v2_5", "v2_6", "v2_7", "v2_8", "v2_9", "v2_10", "v2_11", "v2_12" >>

ASSUME \A k \in 1..Len(VersionSeq) : LET q == Lengths(VersionSeq[k]) IN
         [j \in 1..Len(q) |-> SizeOf(q[j][2])] = Sizes[SizeKey[k]]

FieldSize(f) == f.es * f.c
\* Fields lie within their structure, aligned, and do not overlap.
ASSUME \A s \in Structs : LET fs == Layout[s].f IN
         /\ Layout[s].size % Layout[s].align = 0
         /\ \A x \in DOMAIN fs : /\ fs[x].off + FieldSize(fs[x]) <= Layout[s].size
                                /\ fs[x].off % AlignIn(Layout, fs[x].t) = 0
                                /\ \A y \in DOMAIN fs : x = y \/ fs[x].off + FieldSize(fs[x]) <= fs[y].off
                                                              \/ fs[y].off + FieldSize(fs[y]) <= fs[x].off
\* A list's length is recorded in a number next to it.
ASSUME \A s \in Structs : \A x \in DOMAIN Layout[s].f : LET f == Layout[s].f[x] IN
         f.lim # "" => f.k = "arr" /\ f.lim \in DOMAIN Layout[s].f /\ Layout[s].f[f.lim].t \in Prims
\* What identifies a version is in the same place in every version.
ASSUME \A v \in Versions : \A p \in {"magic", "aversion"} : At(Fmt[v].header, <<p>>) = At("Header_1_26", <<p>>)
ASSUME \A v \in Versions : SizeOf(Fmt[v].header) = HeaderLen

---------------------------------------------------------------------------

Words == {0, 26, 256 + 25, 256 + 26, 256 + 27, 512, 512 + 2, 768, 768 + 12, 1024, 32767}
         \cup {512 + m : m \in 3..15} \cup {512 + 255}
Marked == {w + 32768 : w \in Words} \cup Words

Le2(x) == <<x % 256, x \div 256>>
Le4(x) == <<x % 256, (x \div 256) % 256, x \div 65536, 0>>

\* The header for the choices made: the lengths of format v, those in mis off by eight.
Made(w, m, g) ==
  LET base == [seed |-> 3, pokes |-> << [o |-> At("Header_1_26", <<"aversion">>).off, b |-> Le2(w)] >>]
      v    == FormatOf(base)
      q    == Lengths(v)
      poke(k) == LET a == At(Fmt[v].header, <<q[k][1]>>)
                     x == SizeOf(q[k][2]) + (IF k \in m THEN 8 ELSE 0)
                 IN  [o |-> a.off, b |-> IF a.t = "u16" THEN Le2(x) ELSE Le4(x)]
  IN  [base EXCEPT !.pokes = Ordered(@ \o << [o |-> 0, b |-> IF g THEN <<239, 190, 237, 254>> ELSE <<238, 190, 237, 254>>] >>
                               \o [k \in 1..Len(q) |-> poke(k)])]

Init == /\ word \in Marked /\ mis = {} /\ magic = TRUE /\ n = HeaderLen /\ chk \in BOOLEAN
        /\ hdr = Made(word, {}, TRUE)
Next == \/ /\ mis = {} /\ mis' \in (SUBSET (1..Len(Lengths(FormatOf(hdr)))) \ {{}}) /\ UNCHANGED <<word, magic, n, chk>>
           /\ hdr' = Made(word, mis', magic)
        \/ /\ magic /\ magic' = FALSE /\ hdr' = Made(word, mis, FALSE) /\ UNCHANGED <<word, mis, n, chk>>
        \/ /\ n = HeaderLen /\ n' \in {0, 1, 4, 6, 479} /\ UNCHANGED <<word, mis, magic, chk, hdr>>
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------

Dec == Decisions(hdr, n, chk)
Minor7 == word % 256
Major7 == (word \div 256) % 128

\* C02
Total        == Dec # {} /\ Dec \subseteq {"accept", "reject"}
OnlyComplete == n < HeaderLen \/ ~magic => Dec = {"reject"}
VersionRead  == Major(hdr) = Major7 /\ Minor(hdr) = Minor7 /\ Semantic(hdr) = ToString(Major7) \o "." \o ToString(Minor7)
MarkerNoPart == LET x == Made((word + 32768) % 65536, mis, magic) IN Semantic(x) = Semantic(hdr) /\ Decisions(x, n, chk) = Dec
OwnFormat    == Semantic(hdr) \in Versions => FormatOf(hdr) = Semantic(hdr)
\* C03
Sound == n = HeaderLen /\ magic =>
           /\ ~chk => Dec = {"accept"}
           /\ chk /\ Known(hdr) => Dec = IF mis = {} THEN {"accept"} ELSE {"reject"}
           /\ chk /\ ~Known(hdr) /\ Major7 = 2 /\ Minor7 > 12 => Dec = IF mis = {} THEN {"accept"} ELSE {"reject"}
           /\ chk /\ ~Known(hdr) /\ mis \cap 1..4 # {} => Dec = {"reject"}
Measured == Misfits(hdr, FormatOf(hdr)) = mis

=============================================================================
