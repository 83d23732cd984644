------------------------------- MODULE MCOrder -------------------------------
(* The order of names (C11): the reader compares unit by unit and stops at    *)
(* the first difference - against "lexicographic on folded names", the laws   *)
(* of a total order, and independence of case.                                *)
(* A unit is [c |-> rank after folding, v |-> variant]: two units with equal  *)
(* c and different v differ in case only.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Ranks, Third      \* Third: length of third names in the transitivity check

Unit == [c : 1..Ranks, v : 0..1]
NamesUpTo(n) == UNION {[1..k -> Unit] : k \in 0..n}

VARIABLES x, y, i, res
vars == <<x, y, i, res>>
Init == x \in NamesUpTo(MaxLen) /\ y \in NamesUpTo(MaxLen) /\ i = 1 /\ res = 9

Step ==
  /\ res = 9
  /\ IF i <= Len(x) /\ i <= Len(y)
     THEN IF x[i].c # y[i].c THEN res' = (IF x[i].c < y[i].c THEN -1 ELSE 1) /\ UNCHANGED i
          ELSE i' = i + 1 /\ UNCHANGED res
     ELSE res' = (IF i <= Len(x) THEN 1 ELSE IF i <= Len(y) THEN -1 ELSE 0) /\ UNCHANGED i
  /\ UNCHANGED <<x, y>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* -------------------------------- contract -------------------------------- *)
Folded(s) == [k \in 1..Len(s) |-> s[k].c]
Before(a, b) ==        \* lexicographic, a proper prefix first
  \/ Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
  \/ \E k \in 1..Len(a) : k <= Len(b) /\ a[k] < b[k] /\ SubSeq(a, 1, k - 1) = SubSeq(b, 1, k - 1)
Value(a, b) == IF Before(a, b) THEN -1 ELSE IF Before(b, a) THEN 1 ELSE 0
Lexicographic == res # 9 => res = Value(Folded(x), Folded(y))
EqualIsSameFold == res # 9 => (res = 0 <=> Folded(x) = Folded(y))
Antisymmetric == res # 9 => Value(Folded(y), Folded(x)) = -res
Transitive == (res # 9 /\ res <= 0) =>
                \A z \in UNION {[1..k -> 1..Ranks] : k \in 0..Third} :
                   Value(Folded(y), z) <= 0 => Value(Folded(x), z) <= 0
Terminates == <>(res # 9)

Export == (i = 1 /\ res = 9) => PrintT(ToJson([x |-> x, y |-> y]))
=============================================================================
