----------------------------- MODULE AtopBytes -----------------------------
(***************************************************************************)
(* Bytes, numbers and texts.                                               *)
(*                                                                         *)
(* TLC integers have 32 bits, so a number of a log is a record             *)
(* [sg, m]: sign (0 or 1) and magnitude, little endian, base 256, without  *)
(* leading (most significant) zeros.                                       *)
(*                                                                         *)
(* A content is the recipe of a byte area that is never written out:       *)
(* [seed, pokes], where pokes is a sequence of [o, b] (bytes b at offset   *)
(* o) applied on top of the pattern of the seed, in the order of offsets   *)
(* and without overlaps.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* (Folds rather than recursion: TLC evaluates them eagerly and keeps constants made with them.)

Indices(s) == TLCEval([i \in 1..Len(s) |-> i])

\* The pattern under the pokes; seed 0 is all zeros, seed -b is byte b throughout.  (Mirrored by vt/content.py.)
Pattern(seed, i) ==
  IF seed <= 0 THEN -seed
  ELSE LET x == ((i % 251) * (2 * (seed % 61) + 3) + (i \div 251) * 17 + (i \div 4093) * 5 + seed) % 65521
       IN  ((x * 181) \div 16) % 256

\* Index of the last poke that begins at or before i, 0 if none does (pokes are in the order of their offsets).
Poked(pokes, i) ==
  FoldLeft(LAMBDA r, s : IF r + s <= Len(pokes) /\ pokes[r + s].o <= i THEN r + s ELSE r, 0,
           IF Len(pokes) < 4 THEN <<1, 1, 1>> ELSE IF Len(pokes) < 128 THEN <<64, 32, 16, 8, 4, 2, 1>>
           ELSE <<65536, 32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>)

ByteAt(c, i) ==
  LET k == Poked(c.pokes, i)
  IN  IF k = 0 \/ i >= c.pokes[k].o + Len(c.pokes[k].b) THEN Pattern(c.seed, i) ELSE c.pokes[k].b[i - c.pokes[k].o + 1]

\* n bytes from off on.  (All of them in one poke, or none in any, are the usual cases.)
Bytes(c, off, n) ==
  LET k    == Poked(c.pokes, off)
      end  == IF k = 0 THEN 0 ELSE c.pokes[k].o + Len(c.pokes[k].b)
      from == off - c.pokes[k].o
  IN  IF end >= off + n THEN SubSeq(c.pokes[k].b, from + 1, from + n)
      ELSE IF end <= off /\ (k = Len(c.pokes) \/ c.pokes[k + 1].o >= off + n) THEN TLCEval([i \in 1..n |-> Pattern(c.seed, off + i - 1)])
      ELSE TLCEval([i \in 1..n |-> ByteAt(c, off + i - 1)])

---------------------------------------------------------------------------
\* Magnitudes.

Trim(m) == SubSeq(m, 1, FoldLeft(LAMBDA n, i : IF m[i] = 0 THEN n ELSE i, 0, Indices(m)))

Digit(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

Larger(a, b) == IF a > b THEN a ELSE b
Upto(n) == TLCEval([i \in 1..n |-> i])

\* Digit by digit, with a carry (borrow); r is what has been found so far.
MagAdd(a, b) ==
  LET next(acc, i) == LET s == Digit(a, i) + Digit(b, i) + acc.c IN [r |-> Append(acc.r, s % 256), c |-> s \div 256]
      end == FoldLeft(next, [r |-> <<>>, c |-> 0], Upto(Larger(Len(a), Len(b))))
  IN  Trim(Append(end.r, end.c))

MagSub(a, b) ==                  \* a >= b
  LET next(acc, i) == LET d == a[i] - Digit(b, i) - acc.c IN [r |-> Append(acc.r, (d + 256) % 256), c |-> IF d < 0 THEN 1 ELSE 0]
  IN  Trim(FoldLeft(next, [r |-> <<>>, c |-> 0], Indices(a)).r)

\* The most significant digit that differs decides.
MagLess(a, b) ==
  FoldLeft(LAMBDA less, i : IF Digit(a, i) = Digit(b, i) THEN less ELSE Digit(a, i) < Digit(b, i), FALSE, Upto(Larger(Len(a), Len(b))))

MagMul(a, f) ==                  \* f below 2^22
  LET next(acc, i) == LET p == a[i] * f + acc.c IN [r |-> Append(acc.r, p % 256), c |-> p \div 256]
      end == FoldLeft(next, [r |-> <<>>, c |-> 0], Indices(a))
  IN  Trim(end.r \o <<end.c % 256, (end.c \div 256) % 256, end.c \div 65536>>)

---------------------------------------------------------------------------
\* Numbers.

Num(sg, m) == LET t == Trim(m) IN [sg |-> IF t = <<>> THEN 0 ELSE sg, m |-> t]

RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o MagOf(n \div 256)
NumOf(n) == IF n < 0 THEN Num(1, MagOf(-n)) ELSE Num(0, MagOf(n))

NumAdd(x, y) ==
  IF x.sg = y.sg THEN Num(x.sg, MagAdd(x.m, y.m))
  ELSE IF MagLess(x.m, y.m) THEN Num(y.sg, MagSub(y.m, x.m))
  ELSE Num(x.sg, MagSub(x.m, y.m))

NumMul(x, f) == Num(x.sg, MagMul(x.m, f))

\* Value as a TLC integer, clipped to lo..hi (lo, hi small).
Clip(x, lo, hi) ==
  LET big == Len(x.m) > 3
      v   == Digit(x.m, 1) + 256 * Digit(x.m, 2) + 65536 * Digit(x.m, 3)
      w   == IF x.sg = 1 THEN -v ELSE v
  IN  IF big THEN IF x.sg = 1 THEN lo ELSE hi
      ELSE IF w < lo THEN lo ELSE IF w > hi THEN hi ELSE w

\* Little-endian two's complement.
Unsigned(b) == Num(0, b)
Signed(b) ==
  IF b[Len(b)] < 128 THEN Num(0, b)
  ELSE Num(1, MagAdd(TLCEval([i \in 1..Len(b) |-> 255 - b[i]]), <<1>>))

---------------------------------------------------------------------------
\* Texts.

\* Bytes before the first NUL, if any.
CText(b) == IF \E i \in 1..Len(b) : b[i] = 0
            THEN SubSeq(b, 1, (CHOOSE i \in 1..Len(b) : b[i] = 0 /\ \A j \in 1..(i - 1) : b[j] # 0) - 1)
            ELSE b

In(x, lo, hi) == x >= lo /\ x <= hi

\* Length of the well-formed UTF-8 sequence starting at i (Unicode table 3-7), 0 if there is none.
Utf8Len(b, i) ==
  LET n  == Len(b)
      At(k) == IF i + k <= n THEN b[i + k] ELSE 0
      C(k)  == In(At(k), 128, 191)
      x  == b[i]
  IN  IF x < 128 THEN 1
      ELSE IF In(x, 194, 223) /\ C(1) THEN 2
      ELSE IF x = 224 /\ In(At(1), 160, 191) /\ C(2) THEN 3
      ELSE IF (In(x, 225, 236) \/ In(x, 238, 239)) /\ C(1) /\ C(2) THEN 3
      ELSE IF x = 237 /\ In(At(1), 128, 159) /\ C(2) THEN 3
      ELSE IF x = 240 /\ In(At(1), 144, 191) /\ C(2) /\ C(3) THEN 4
      ELSE IF In(x, 241, 243) /\ C(1) /\ C(2) /\ C(3) THEN 4
      ELSE IF x = 244 /\ In(At(1), 128, 143) /\ C(2) /\ C(3) THEN 4
      ELSE 0

\* The well-formed sequences of b, in order; undecodable bytes dropped.
Utf8Text(b) ==
  IF \A i \in 1..Len(b) : b[i] < 128 THEN b
  ELSE LET next(acc, i) ==
             IF i < acc.at THEN acc       \* within a sequence already taken
             ELSE LET k == Utf8Len(b, i)
                  IN  IF k = 0 THEN acc ELSE [r |-> acc.r \o SubSeq(b, i, i + k - 1), at |-> i + k]
       IN  FoldLeft(next, [r |-> <<>>, at |-> 1], Indices(b)).r

=============================================================================
