------------------------------ MODULE MCFollow ------------------------------
\* AtopFollow over small logs, of which at first only the header exists.
EXTENDS AtopFollow, MCReader

CONSTANT Samples

\* Complete logs of samples of ordinary form.
Ordinary(cg) == Whole(cg, [k \in 1..Samples |-> <<Ones(cg), Plain(cg)>>])
Starts == {[Ordinary(cg) EXCEPT !.avail = Ordinary(cg).hdr] : cg \in BOOLEAN}

=============================================================================
