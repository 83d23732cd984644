------------------------------- MODULE Names -------------------------------
(* Text in a hive: sequences of UTF-16 code units, their case-insensitive     *)
(* order, and their conversion to characters.  Independent of the byte level. *)
EXTENDS Integers, Sequences, SequencesExt, Upcase

IsHi(u) == u >= 55296 /\ u <= 56319      \* D800..DBFF
IsLo(u) == u >= 56320 /\ u <= 57343      \* DC00..DFFF
Replacement == 65533                     \* U+FFFD

(* ---- order: -1, 0 or 1 ------------------------------------------------- *)
(* Code units one by one after simple uppercase mapping, a proper prefix      *)
(* coming first.                                                              *)
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0

RECURSIVE CmpFrom(_, _, _)
CmpFrom(x, y, i) ==
  LET n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
      hi == IF i + 63 > n THEN n ELSE i + 63
      Differ(j) == x[j] # y[j] /\ Up(x[j]) # Up(y[j])
  IN IF i > n THEN Sign(Len(x), Len(y))
     ELSE IF \E j \in i..hi : Differ(j)
     THEN LET j == CHOOSE j \in i..hi : Differ(j) /\ \A m \in i..(j - 1) : ~Differ(m)
          IN Sign(Up(x[j]), Up(y[j]))
     ELSE CmpFrom(x, y, hi + 1)

Cmp(x, y) == CmpFrom(x, y, 1)
SameName(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i] = y[i] \/ Up(x[i]) = Up(y[i])

(* ---- conversion to characters (scalar values) --------------------------- *)
(* Pairing is local: a high surrogate directly followed by a low one.         *)
PairStart(u, i) == IsHi(u[i]) /\ i < Len(u) /\ IsLo(u[i + 1])
PairEnd(u, i) == IsLo(u[i]) /\ i > 1 /\ IsHi(u[i - 1])
Unpaired(u, i) == (IsHi(u[i]) /\ ~PairStart(u, i)) \/ (IsLo(u[i]) /\ ~PairEnd(u, i))

CharAt(u, i) ==
  IF PairStart(u, i) THEN 65536 + (u[i] - 55296) * 1024 + (u[i + 1] - 56320)
  ELSE IF IsHi(u[i]) \/ IsLo(u[i]) THEN Replacement
  ELSE u[i]

HasSurrogate(u) == \E i \in 1..Len(u) : u[i] >= 55296 /\ u[i] <= 57343

(* lossy: U+FFFD for each unpaired surrogate *)
Lossy(u) ==
  IF ~HasSurrogate(u) THEN u
  ELSE LET starts == SelectSeq([i \in 1..Len(u) |-> i], LAMBDA i : ~PairEnd(u, i))
       IN [j \in 1..Len(starts) |-> CharAt(u, starts[j])]

(* strict conversion exists exactly when no surrogate is unpaired *)
Convertible(u) == \A i \in 1..Len(u) : ~Unpaired(u, i)

(* ---- text inside value data --------------------------------------------- *)
(* position of the first NUL at or after i, or Len(u) + 1 *)
RECURSIVE NulIn(_, _, _)
NulIn(u, i, j) ==
  IF i > j THEN 0
  ELSE IF j - i < 64
  THEN IF \E k \in i..j : u[k] = 0 THEN CHOOSE k \in i..j : u[k] = 0 /\ \A m \in i..(k - 1) : u[m] # 0 ELSE 0
  ELSE LET m == (i + j) \div 2
           left == NulIn(u, i, m)
       IN IF left # 0 THEN left ELSE NulIn(u, m + 1, j)
RECURSIVE NulAhead(_, _, _)
NulAhead(u, i, width) ==       \* nearby first: strings are short, data may be long
  IF i > Len(u) THEN Len(u) + 1
  ELSE LET hi == IF i + width - 1 > Len(u) THEN Len(u) ELSE i + width - 1
           k == NulIn(u, i, hi)
       IN IF k # 0 THEN k ELSE NulAhead(u, hi + 1, 4 * width)
NulFrom(u, i) == NulAhead(u, i, 64)

(* REG_SZ: everything before the first NUL or the end *)
UpToNul(u) == SubSeq(u, 1, NulFrom(u, 1) - 1)

(* ---- paths --------------------------------------------------------------- *)
Backslash == 92
Components(p) ==
  LET cuts == <<0>> \o SelectSeq([i \in 1..Len(p) |-> i], LAMBDA i : p[i] = Backslash) \o <<Len(p) + 1>>
  IN SelectSeq([i \in 1..(Len(cuts) - 1) |-> SubSeq(p, cuts[i] + 1, cuts[i + 1] - 1)], LAMBDA c : c # <<>>)
=============================================================================
