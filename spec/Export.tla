------------------------------- MODULE Export -------------------------------
\* Prints the derived layout for the harness (which places bytes by it).
EXTENDS AtopLayout, Json, IOUtils

ASSUME JsonSerialize(IOEnv.OUT,
  [structs |-> [s \in Structs |->
     [size |-> SizeOf(s),
      fields |-> [i \in 1..Len(StructDefs[s]) |->
         LET d == StructDefs[s][i] fd == Layout[s].f[d.n]
         IN [n |-> d.n, off |-> fd.off, t |-> fd.t, k |-> fd.k, c |-> fd.c, es |-> fd.es, lim |-> fd.lim,
             reserved |-> Reserved(d.n)]]]],
   formats |-> Fmt, versions |-> VersionSeq, prims |-> PrimSize])

VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
