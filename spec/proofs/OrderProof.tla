------------------------------ MODULE OrderProof ------------------------------
(* The order of names (MCOrder), for names of ANY length and any case mapping: *)
(* comparing unit by unit gives the lexicographic order of the folded names,    *)
(* and that is one total order in which "equal" means "same when folded".      *)
(* Checked by TLAPS.                                                            *)
EXTENDS Integers, Sequences, TLAPS

CONSTANTS Up(_)                     \* simple uppercase mapping of a code unit
ASSUME Mapping == \A u \in Nat : Up(u) \in Nat

Names == Seq(Nat)

(* x and y are the same up to unit n - 1 *)
SameTo(x, y, n) == \A i \in 1..(n - 1) : i <= Len(x) /\ i <= Len(y) /\ Up(x[i]) = Up(y[i])
(* x comes first, which shows at unit n *)
At(x, y, n) == /\ SameTo(x, y, n)
               /\ n <= Len(y)
               /\ (n = Len(x) + 1 \/ (n <= Len(x) /\ Up(x[n]) < Up(y[n])))
Before(x, y) == \E n \in Nat \ {0} : At(x, y, n)
Same(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Up(x[i]) = Up(y[i])

(* ------------------------------- the comparison ---------------------------- *)
CONSTANTS A, B
ASSUME Given == A \in Names /\ B \in Names

VARIABLES i, res
vars == <<i, res>>
Init == i = 1 /\ res = 9
Next == /\ res = 9
        /\ IF i <= Len(A) /\ i <= Len(B)
           THEN IF Up(A[i]) # Up(B[i]) THEN res' = (IF Up(A[i]) < Up(B[i]) THEN -1 ELSE 1) /\ UNCHANGED i
                ELSE i' = i + 1 /\ UNCHANGED res
           ELSE res' = (IF i <= Len(A) THEN 1 ELSE IF i <= Len(B) THEN -1 ELSE 0) /\ UNCHANGED i
Spec == Init /\ [][Next]_vars

Inv == /\ i \in Nat /\ i >= 1 /\ i <= Len(A) + 1 /\ i <= Len(B) + 1
       /\ res \in {9, -1, 0, 1}
       /\ SameTo(A, B, i)
       /\ res = -1 => At(A, B, i)
       /\ res = 1 => At(B, A, i)
       /\ res = 0 => Same(A, B)
Correct == /\ res = -1 => Before(A, B)
           /\ res = 1 => Before(B, A)
           /\ res = 0 => Same(A, B)
(* the distance to the end only shrinks, so that the comparison comes to an end *)
Left == (Len(A) + 1 - i) + (IF res = 9 THEN 1 ELSE 0)
Shrinks == [][Left' < Left]_vars

-------------------------------------------------------------------------------
LEMMA LenNat == \A x \in Names : Len(x) \in Nat /\ \A k \in 1..Len(x) : x[k] \in Nat /\ Up(x[k]) \in Nat
  BY Mapping DEF Names

LEMMA InvHolds == Spec => []Inv
<1>1. Init => Inv
  BY LenNat, Given DEF Init, Inv, SameTo
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>0. Len(A) \in Nat /\ Len(B) \in Nat /\ i \in Nat
    BY LenNat, Given DEF Inv
  <2>1. CASE UNCHANGED vars
    BY <2>1 DEF Inv, vars
  <2>2. CASE Next
    <3>0. res = 9
      BY <2>2 DEF Next
    <3>1. CASE i <= Len(A) /\ i <= Len(B) /\ Up(A[i]) = Up(B[i])
      <4>1. i' = i + 1 /\ res' = 9
        BY <3>0, <3>1, <2>2 DEF Next
      <4>2. SameTo(A, B, i')
        BY <4>1, <3>1, <2>0 DEF SameTo, Inv
      <4> QED BY <4>1, <4>2, <2>0, <3>1 DEF Inv
    <3>2. CASE i <= Len(A) /\ i <= Len(B) /\ Up(A[i]) # Up(B[i])
      <4>1. i' = i /\ res' = (IF Up(A[i]) < Up(B[i]) THEN -1 ELSE 1)
        BY <3>0, <3>2, <2>2 DEF Next
      <4>2. Up(A[i]) \in Nat /\ Up(B[i]) \in Nat
        BY <3>2, <2>0, LenNat, Given DEF Inv
      <4>3. SameTo(A, B, i) /\ SameTo(B, A, i)
        BY DEF Inv, SameTo
      <4> QED BY <4>1, <4>2, <4>3, <2>0, <3>2 DEF Inv, At
    <3>3. CASE i <= Len(A) /\ ~(i <= Len(B))
      <4>1. i' = i /\ res' = 1
        BY <3>0, <3>3, <2>2 DEF Next
      <4>2. i = Len(B) + 1
        BY <2>0, <3>3 DEF Inv
      <4>3. SameTo(A, B, i) /\ SameTo(B, A, i)
        BY DEF Inv, SameTo
      <4> QED BY <4>1, <4>2, <4>3, <2>0, <3>3 DEF Inv, At
    <3>4. CASE ~(i <= Len(A)) /\ i <= Len(B)
      <4>1. i' = i /\ res' = -1
        BY <3>0, <3>4, <2>2 DEF Next
      <4>2. i = Len(A) + 1
        BY <2>0, <3>4 DEF Inv
      <4>3. SameTo(A, B, i)
        BY DEF Inv
      <4> QED BY <4>1, <4>2, <4>3, <2>0, <3>4 DEF Inv, At
    <3>5. CASE ~(i <= Len(A)) /\ ~(i <= Len(B))
      <4>1. i' = i /\ res' = 0
        BY <3>0, <3>5, <2>2 DEF Next
      <4>2. i = Len(A) + 1 /\ i = Len(B) + 1
        BY <2>0, <3>5 DEF Inv
      <4>3. Same(A, B)
        BY <4>2, <2>0 DEF Inv, SameTo, Same
      <4> QED BY <4>1, <4>3, <4>2, <2>0 DEF Inv
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, PTL DEF Spec

THEOREM Agreement == Spec => []Correct
<1>1. Inv => Correct
  BY DEF Inv, Correct, Before
<1> QED BY <1>1, InvHolds, PTL

THEOREM ComesToAnEnd == Spec => Shrinks
<1>1. Inv /\ [Next]_vars => [Left' < Left]_vars
  <2> SUFFICES ASSUME Inv, Next PROVE Left' < Left
    BY DEF vars
  <2>0. Len(A) \in Nat /\ Len(B) \in Nat /\ i \in Nat
    BY LenNat, Given DEF Inv
  <2>1. (i' = i + 1 /\ res' = 9) \/ (i' = i /\ res' # 9)
    BY <2>0 DEF Next
  <2>2. res = 9
    BY DEF Next
  <2> QED BY <2>0, <2>1, <2>2 DEF Left
<1> QED BY <1>1, InvHolds, PTL DEF Spec, Shrinks

(* ----------------------------- one total order ----------------------------- *)
LEMMA Facts == ASSUME NEW x \in Names, NEW y \in Names, NEW n \in Nat \ {0}, At(x, y, n)
               PROVE /\ Len(x) \in Nat /\ Len(y) \in Nat
                     /\ n <= Len(y) /\ n <= Len(x) + 1
                     /\ n <= Len(x) => Up(x[n]) < Up(y[n])
                     /\ \A k \in 1..(n - 1) : k <= Len(x) /\ k <= Len(y) /\ Up(x[k]) = Up(y[k])
  BY LenNat DEF At, SameTo

THEOREM Irreflexive == \A x \in Names : ~Before(x, x)
<1> SUFFICES ASSUME NEW x \in Names, NEW n \in Nat \ {0}, At(x, x, n) PROVE FALSE
  BY DEF Before
<1>1. n <= Len(x) /\ Up(x[n]) < Up(x[n])
  BY Facts
<1>2. Up(x[n]) \in Nat
  BY <1>1, LenNat
<1> QED BY <1>1, <1>2

THEOREM Transitive == \A x, y, z \in Names : Before(x, y) /\ Before(y, z) => Before(x, z)
<1> SUFFICES ASSUME NEW x \in Names, NEW y \in Names, NEW z \in Names,
                    NEW n \in Nat \ {0}, NEW m \in Nat \ {0}, At(x, y, n), At(y, z, m)
             PROVE Before(x, z)
  BY DEF Before
<1>0. /\ Len(x) \in Nat /\ Len(y) \in Nat /\ Len(z) \in Nat
      /\ n <= Len(y) /\ n <= Len(x) + 1 /\ m <= Len(z) /\ m <= Len(y) + 1
      /\ n <= Len(x) => Up(x[n]) < Up(y[n])
      /\ m <= Len(y) => Up(y[m]) < Up(z[m])
      /\ \A k \in 1..(n - 1) : k <= Len(x) /\ k <= Len(y) /\ Up(x[k]) = Up(y[k])
      /\ \A k \in 1..(m - 1) : k <= Len(y) /\ k <= Len(z) /\ Up(y[k]) = Up(z[k])
  BY Facts
<1>t. /\ \A k \in 1..Len(x) : Up(x[k]) \in Nat
      /\ \A k \in 1..Len(y) : Up(y[k]) \in Nat
      /\ \A k \in 1..Len(z) : Up(z[k]) \in Nat
  BY LenNat
<1>1. CASE n < m
  <2>1. SameTo(x, z, n)
    BY <1>0, <1>1 DEF SameTo
  <2>2. n <= Len(z) /\ Up(y[n]) = Up(z[n])
    BY <1>0, <1>1
  <2>3. At(x, z, n)
    BY <1>0, <2>1, <2>2 DEF At
  <2> QED BY <2>3 DEF Before
<1>2. CASE n = m
  <2>1. SameTo(x, z, n)
    BY <1>0, <1>2 DEF SameTo
  <2>2. n <= Len(z) /\ (n <= Len(x) => Up(x[n]) < Up(z[n]))
    BY <1>0, <1>2, <1>t
  <2>3. At(x, z, n)
    BY <1>0, <2>1, <2>2 DEF At
  <2> QED BY <2>3 DEF Before
<1>3. CASE n > m
  <2>1. SameTo(x, z, m)
    BY <1>0, <1>3 DEF SameTo
  <2>2. m <= Len(x) /\ m <= Len(y) /\ m <= Len(z) /\ Up(x[m]) = Up(y[m])
    BY <1>0, <1>3
  <2>3. Up(x[m]) < Up(z[m])
    BY <1>0, <2>2
  <2>4. At(x, z, m)
    BY <2>1, <2>2, <2>3 DEF At
  <2> QED BY <2>4 DEF Before
<1> QED BY <1>0, <1>1, <1>2, <1>3

THEOREM Exclusive == \A x, y \in Names : /\ ~(Before(x, y) /\ Before(y, x))
                                         /\ ~(Before(x, y) /\ Same(x, y))
<1>1. ASSUME NEW x \in Names, NEW y \in Names PROVE ~(Before(x, y) /\ Before(y, x))
  BY Irreflexive, Transitive
<1>2. ASSUME NEW x \in Names, NEW y \in Names PROVE ~(Before(x, y) /\ Same(x, y))
  <2> SUFFICES ASSUME NEW n \in Nat \ {0}, At(x, y, n), Same(x, y) PROVE FALSE
    BY DEF Before
  <2>1. n <= Len(y) /\ n <= Len(x) /\ Up(x[n]) < Up(y[n])
    BY Facts DEF Same
  <2>2. Up(x[n]) = Up(y[n]) /\ Up(x[n]) \in Nat
    BY <2>1, LenNat DEF Same
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2

(* two names in the same place of the order are the same when folded, and the same everywhere *)
THEOREM Congruence == \A x, y, z \in Names : Same(x, y) => /\ Before(x, z) <=> Before(y, z)
                                                           /\ Before(z, x) <=> Before(z, y)
<1> SUFFICES ASSUME NEW x \in Names, NEW y \in Names, NEW z \in Names, Same(x, y)
             PROVE /\ Before(x, z) <=> Before(y, z)
                   /\ Before(z, x) <=> Before(z, y)
  OBVIOUS
<1>0. /\ Len(x) = Len(y) /\ Len(x) \in Nat /\ Len(z) \in Nat
      /\ \A k \in 1..Len(x) : Up(x[k]) = Up(y[k])
  BY LenNat DEF Same
<1>1. \A n \in Nat \ {0} : At(x, z, n) <=> At(y, z, n)
  BY <1>0 DEF At, SameTo
<1>2. \A n \in Nat \ {0} : At(z, x, n) <=> At(z, y, n)
  BY <1>0 DEF At, SameTo
<1> QED BY <1>1, <1>2 DEF Before
=============================================================================
