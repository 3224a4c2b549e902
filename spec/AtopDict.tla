------------------------------ MODULE AtopDict ------------------------------
(***************************************************************************)
(* Dictionary conversion.  Logged forms: [x |-> "d", d |-> record] for a   *)
(* dictionary, [x |-> "l", v |-> sequence] for a list, and the leaf values *)
(* of AtopLayout (texts as "s", the UTF-8 bytes of the string).            *)
(*                                                                         *)
(* (Sets of tuples below have TLC evaluate arguments once, not at each use.)*)
(* DictFaults(s, c, off, j) is the set of <<path, clause>> where j is not  *)
(* the conversion of structure s at off of content c.                      *)
(***************************************************************************)
EXTENDS AtopLayout

PublicOf == TLCEval([s \in Structs |-> {n \in DOMAIN Layout[s].f : ~Reserved(n)}])
Public(s) == PublicOf[s]

\* Number of entries of the array field fd of struct s at off: the recorded
\* count capped at the capacity (counts below zero are outside the format).
Entries(s, fd, c, off) ==
  IF fd.lim = "" THEN fd.c
  ELSE LET lf == Layout[s].f[fd.lim] IN Clip(NumAt(c, off + lf.off, lf.t), 0, fd.c)

Kind(j) == j.x

LeafFault(j, c, off, t) ==
  CASE t = "chr" -> IF Kind(j) = "s" /\ j.b = Utf8Text(Bytes(c, off, 1)) THEN "" ELSE "text"
    [] t = "f32" -> IF IsScalar(j, c, off, t) THEN "" ELSE "float"
    [] OTHER     -> IF IsScalar(j, c, off, t) THEN "" ELSE "number"

RECURSIVE DictFaults(_, _, _, _, _), FieldFaults(_, _, _, _, _, _), ValueFaults(_, _, _, _, _)
DictFaults(s, c, off, j, path) ==
  IF Kind(j) # "d" THEN {<<path, "not a dictionary">>}
  ELSE IF DOMAIN j.d # Public(s)
       THEN {<<path, "keys", (DOMAIN j.d \ Public(s)), (Public(s) \ DOMAIN j.d)>>}
       ELSE UNION {FieldFaults(s, e[1], c, e[2], e[3], path) : e \in {<<n, off + Layout[s].f[n].off, j.d[n]>> : n \in Public(s)}}

\* Field n of a structure at off as o (its own offset).
FieldFaults(s, n, c, o, j, path) ==
  LET fd == Layout[s].f[n]
  IN  CASE fd.k = "one" -> ValueFaults(fd.t, c, o, j, Append(path, n))
        [] fd.k = "str" -> IF Kind(j) = "s" /\ j.b = Utf8Text(CText(Bytes(c, o, fd.c))) THEN {} ELSE {<<path, n, "text">>}
        [] fd.k = "arr" ->
             IF Kind(j) # "l" THEN {<<path, n, "not a list">>}
             ELSE LET want == Entries(s, fd, c, o - fd.off)
                  IN  IF Len(j.v) # want THEN {<<path, n, "entries", Len(j.v), want>>}
                      ELSE UNION {ValueFaults(fd.t, c, e[2], e[3], path \o <<n, e[1] - 1>>) : e \in {<<i, o + (i - 1) * fd.es, j.v[i]>> : i \in 1..Len(j.v)}}

ValueFaults(t, c, off, j, path) ==
  IF t \in Prims THEN LET l == LeafFault(j, c, off, t) IN IF l = "" THEN {} ELSE {<<path, l>>}
  ELSE DictFaults(t, c, off, j, path)

=============================================================================
