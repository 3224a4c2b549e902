----------------------------- MODULE AtopLayout -----------------------------
(***************************************************************************)
(* Where every field of the raw formats lies: the C layout rules of the    *)
(* x86-64 ABI (natural alignment, size rounded up to the alignment)        *)
(* applied to the tables of AtopSchema, and the value a field then has.    *)
(***************************************************************************)
EXTENDS AtopSchema, AtopBytes, TLC, SequencesExt

PrimSize == [chr |-> 1, u8 |-> 1, i16 |-> 2, u16 |-> 2, i32 |-> 4, u32 |-> 4, i64 |-> 8, u64 |-> 8, f32 |-> 4]
Prims    == DOMAIN PrimSize
SignedTypes == {"i16", "i32", "i64"}

RoundUp(x, a) == ((x + a - 1) \div a) * a

\* The layout of one structure, given those of the structures it contains (table): [size, align, f];
\* f maps every field name to [off, t, k, c, es, lim], es being the element size.
\* (Folds rather than recursion: TLC evaluates them eagerly.)
SizeIn(table, t)  == IF t \in Prims THEN PrimSize[t] ELSE table[t].size
AlignIn(table, t) == IF t \in Prims THEN PrimSize[t] ELSE table[t].align

Place(defs, table) ==
  LET next(acc, d) ==
        LET o == RoundUp(acc.size, AlignIn(table, d.t))
        IN  [size  |-> o + SizeIn(table, d.t) * d.c,
             align |-> Larger(acc.align, AlignIn(table, d.t)),
             f     |-> acc.f @@ (d.n :> [off |-> o, t |-> d.t, k |-> d.k, c |-> d.c,
                                         es |-> SizeIn(table, d.t), lim |-> d.lim])]
      round(acc) == [acc EXCEPT !.size = RoundUp(acc.size, acc.align)]
  IN  round(FoldLeft(next, [size |-> 0, align |-> 1, f |-> <<>>], defs))

Structs == DOMAIN StructDefs
Layout  == FoldLeft(LAMBDA table, s : table @@ (s :> Place(StructDefs[s], table)), <<>>, StructOrder)
SizeOf(s) == Layout[s].size

\* The parts of a version's format; cgroup statistics exist from 2.11 on.
Parts(v)  == DOMAIN Formats[v]
Fmt == TLCEval(Formats)
HasCgroups(v) == "cstat" \in Parts(v)

---------------------------------------------------------------------------
\* Reserved fields: room for future versions, not part of the public content.
\* (Names in which the word "future" occurs.)
ReservedNames == {"future", "future1", "future2", "sfuture", "cfuture", "ifuture", "lfuture", "rfuture", "bfuture"}
Reserved(n) == n \in ReservedNames

---------------------------------------------------------------------------
\* Values as logged: [x |-> "i", sg, m] number, [x |-> "y", b] bytes, [x |-> "s", b] string (UTF-8), [x |-> "f", b] float (its four bytes).

IsNaN32(b) == b[4] % 128 = 127 /\ b[3] >= 128 /\ (b[3] > 128 \/ b[2] > 0 \/ b[1] > 0)

\* The number at off of type t.
NumAt(c, off, t) ==
  LET b == Bytes(c, off, PrimSize[t]) IN IF t \in SignedTypes THEN Signed(b) ELSE Unsigned(b)

SameNum(v, n) == v.x = "i" /\ v.sg = n.sg /\ v.m = n.m

\* v is the value of a scalar of primitive type t at off (texts raw, as attributes give them).
IsScalar(v, c, off, t) ==
  CASE t = "chr" -> v.x = "y" /\ v.b = Bytes(c, off, 1)
    [] t = "f32" -> LET b == Bytes(c, off, 4) IN v.x = "f" /\ (v.b = b \/ (IsNaN32(b) /\ IsNaN32(v.b)))
    [] OTHER     -> SameNum(v, NumAt(c, off, t))

\* [off, t, k, c] of the value that a path (field names and 0-based indices) denotes.
RECURSIVE Locate(_, _, _, _)
Locate(s, path, i, off) ==
  LET fd == Layout[s].f[path[i]]
      o  == off + fd.off
  IN  IF fd.k = "arr"
      THEN LET eo == o + path[i + 1] * fd.es
           IN  IF i + 1 = Len(path) THEN [off |-> eo, t |-> fd.t, k |-> "one", c |-> 1]
               ELSE Locate(fd.t, path, i + 2, eo)
      ELSE IF i = Len(path) THEN [off |-> o, t |-> fd.t, k |-> fd.k, c |-> fd.c]
      ELSE Locate(fd.t, path, i + 1, o)

At(s, path) == Locate(s, path, 1, 0)

\* Disjoint pokes in their order.
Ordered(pokes) == SortSeq(pokes, LAMBDA a, b : a.o < b.o)

NumOfPath(c, s, path) == LET a == At(s, path) IN NumAt(c, a.off, a.t)

\* v is the value at path of struct s at off of content c, as an attribute gives it.
IsAttr(v, c, off, s, path) ==
  LET a == At(s, path)
  IN  IF a.k = "str" THEN v.x = "y" /\ v.b = CText(Bytes(c, off + a.off, a.c))
      ELSE IsScalar(v, c, off + a.off, a.t)

=============================================================================
