------------------------------ MODULE IterProof ------------------------------
(* The iterators over lists of records and over big data (MCIter), for ANY    *)
(* number of elements, any word size and any history of next/nth calls:       *)
(* every call returns the element that is due, and the announced number of    *)
(* elements is exact at every point.  Checked by TLAPS.                        *)
EXTENDS Integers, TLAPS

CONSTANTS Top,                 \* the largest machine word
          Base, N,             \* a list of N records that starts at Base
          S,                   \* bytes per record
          Size                 \* bytes of big data
Step == 16344
Segs == (Size + (Step - 1)) \div Step

ASSUME Params == /\ Top \in Nat /\ Base \in Nat /\ N \in Nat /\ Size \in Nat
                 /\ S \in {4, 8}
                 /\ Base + N * S <= Top
                 /\ Size <= Top
                 /\ Base + Segs * 4 <= Top          \* the list of segments lies in memory

Sat(x) == IF x > Top THEN Top ELSE x
Monus(x, y) == IF x > y THEN x - y ELSE 0

VARIABLES a,        \* list: position of the next record
          left, p,  \* big data: bytes left, position of the next entry of the segment list
          pos,      \* the element that is due (contract): 1..N + 1
          bpos,
          r, want, br, bwant
vars == <<a, left, p, pos, bpos, r, want, br, bwant>>

Init == /\ a = Base /\ pos = 1 /\ r = 0 /\ want = 0
        /\ left = Size /\ p = Base /\ bpos = 1 /\ br = 0 /\ bwant = 0

(* ------------------------------ lists of records --------------------------- *)
List == /\ UNCHANGED <<left, p, bpos, br, bwant>>
        /\ \E n \in Nat :                               \* n = 0: next
             LET b == Sat(a + Sat(n * S)) IN
             /\ want' = IF pos + n <= N THEN pos + n ELSE 0
             /\ pos' = IF pos + n <= N THEN pos + n + 1 ELSE N + 1
             /\ IF b + S > Top \/ b + S > Base + N * S
                THEN r' = 0 /\ a' = b
                ELSE r' = (b - Base) \div S + 1 /\ a' = b + S

(* --------------------------------- big data -------------------------------- *)
Big == /\ UNCHANGED <<a, pos, r, want>>
       /\ \E n \in Nat :
            LET m == Monus(left, Sat(n * Step)) IN
            /\ bwant' = IF bpos + n <= Segs THEN bpos + n ELSE 0
            /\ bpos' = IF bpos + n <= Segs THEN bpos + n + 1 ELSE Segs + 1
            /\ IF m = 0 THEN br' = 0 /\ left' = 0 /\ UNCHANGED p
               ELSE LET at == p + n * 4 IN
                    IF at + 4 > Base + Segs * 4 THEN br' = 0 /\ left' = m /\ p' = at
                    ELSE /\ br' = (at - Base) \div 4 + 1
                         /\ p' = at + 4
                         /\ left' = m - (IF m < Step THEN m ELSE Step)

Next == List \/ Big
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
ListInv == /\ a \in Nat /\ pos \in Nat /\ pos >= 1 /\ pos <= N + 1
           /\ IF pos <= N THEN a = Base + (pos - 1) * S ELSE a >= Base + N * S
           /\ r = want
BigInv == /\ left \in Nat /\ p \in Nat /\ bpos \in Nat /\ bpos >= 1 /\ bpos <= Segs + 1
          /\ left = Monus(Size, (bpos - 1) * Step)
          /\ bpos <= Segs => p = Base + (bpos - 1) * 4
          /\ br = bwant
Inv == ListInv /\ BigInv

Correct == r = want /\ br = bwant
(* what len() and size_hint() announce *)
Announced == /\ (IF a < Base + N * S THEN (Base + N * S - a) \div S ELSE 0) = N + 1 - pos
             /\ (left + (Step - 1)) \div Step = Segs + 1 - bpos

LEMMA Mul4 == \A k \in Int : (k * 4) \div 4 = k
  BY Z3
LEMMA Mul8 == \A k \in Int : (k * 8) \div 8 = k
  BY Z3
LEMMA SegsDef == Segs \in Nat /\ Segs * Step >= Size /\ (Segs > 0 => (Segs - 1) * Step < Size) /\ (Size = 0 <=> Segs = 0)
  BY Params, Z3 DEF Segs, Step

THEOREM Start == Init => Inv
  BY Params, SegsDef, Z3 DEF Init, Inv, ListInv, BigInv, Monus, Step

THEOREM ListKeeps == Inv /\ List => Inv'
<1> SUFFICES ASSUME Inv, List PROVE Inv'
  OBVIOUS
<1>1. BigInv' BY DEF Inv, BigInv, List
<1>2. ListInv'
  <2>1. PICK n \in Nat :
        LET b == Sat(a + Sat(n * S)) IN
             /\ want' = IF pos + n <= N THEN pos + n ELSE 0
             /\ pos' = IF pos + n <= N THEN pos + n + 1 ELSE N + 1
             /\ IF b + S > Top \/ b + S > Base + N * S
                THEN r' = 0 /\ a' = b
                ELSE r' = (b - Base) \div S + 1 /\ a' = b + S
    BY DEF List
  <2>4. CASE S = 4
    <3>1. /\ want' = IF pos + n <= N THEN pos + n ELSE 0
          /\ pos' = IF pos + n <= N THEN pos + n + 1 ELSE N + 1
      BY <2>1
    <3>2. Base + N * 4 <= Top /\ Base \in Nat /\ N \in Nat /\ Top \in Nat
      BY <2>4, Params
    <3>3. /\ a \in Nat /\ pos \in Nat /\ pos >= 1 /\ pos <= N + 1
          /\ IF pos <= N THEN a = Base + (pos - 1) * 4 ELSE a >= Base + N * 4
      BY <2>4 DEF Inv, ListInv
    <3> DEFINE t == n * 4
               u == a + (IF t > Top THEN Top ELSE t)
               b == IF u > Top THEN Top ELSE u
    <3>4. IF b + 4 > Top \/ b + 4 > Base + N * 4
          THEN r' = 0 /\ a' = b
          ELSE r' = (b - Base) \div 4 + 1 /\ a' = b + 4
      BY <2>1, <2>4 DEF Sat
    <3>5. t \in Nat /\ t = n * 4 BY Z3
    <3>6. b \in Nat BY <3>5, <3>2, <3>3, Z3
    <3>7. CASE pos + n <= N
      <4>1. b = Base + (pos + n - 1) * 4 /\ b + 4 <= Base + N * 4
        BY <3>7, <3>2, <3>3, <3>5, Z3
      <4> HIDE DEF b
      <4>d. b - Base = (pos + n - 1) * 4
        BY <4>1, <3>2, <3>3
      <4>e. (b - Base) \div 4 = pos + n - 1
        BY <4>d, <3>3, Mul4
      <4>f. ~(b + 4 > Top) /\ ~(b + 4 > Base + N * 4)
        BY <4>1, <3>2, <3>6
      <4>2. (b - Base) \div 4 + 1 = pos + n /\ a' = b + 4 /\ r' = pos + n
        BY <4>e, <4>f, <3>4, <3>3
      <4>3. /\ a' \in Nat /\ pos' \in Nat /\ pos' >= 1 /\ pos' <= N + 1
            /\ IF pos' <= N THEN a' = Base + (pos' - 1) * 4 ELSE a' >= Base + N * 4
            /\ r' = want'
        BY <4>1, <4>2, <3>1, <3>2, <3>3, <3>6, <3>7, Z3
      <4> QED BY <4>3, <2>4 DEF ListInv
    <3>8. CASE pos + n > N
      <4>u. a + t >= Base + N * 4 /\ t \in Nat
        <5> HIDE DEF t
        <5>1. CASE pos <= N
          <6>1. a = Base + (pos - 1) * 4 BY <5>1, <3>3
          <6>2. (pos - 1) * 4 + n * 4 >= N * 4 BY <3>8, <3>2, <3>3, Z3
          <6> QED BY <6>1, <6>2, <3>5, <3>2, <3>3
        <5>2. CASE pos > N
          <6>1. a >= Base + N * 4 BY <5>2, <3>3, <3>2
          <6> QED BY <6>1, <3>5, <3>2, <3>3
        <5> QED BY <5>1, <5>2, <3>2, <3>3
      <4>0. u >= Base + N * 4
        <5> HIDE DEF t
        <5> QED BY <4>u, <3>2, <3>3, Z3
      <4>1. b >= Base + N * 4
        <5> HIDE DEF u
        <5> QED BY <4>0, <3>2, Z3
      <4> HIDE DEF b
      <4>2. a' = b /\ r' = 0
        BY <4>1, <3>4, <3>2, <3>6, Z3
      <4>3. /\ a' \in Nat /\ pos' \in Nat /\ pos' >= 1 /\ pos' <= N + 1
            /\ IF pos' <= N THEN a' = Base + (pos' - 1) * 4 ELSE a' >= Base + N * 4
            /\ r' = want'
        BY <4>1, <4>2, <3>1, <3>2, <3>3, <3>6, <3>8, Z3
      <4> QED BY <4>3, <2>4 DEF ListInv
    <3> QED BY <3>3, <3>7, <3>8, <3>2
  <2>8. CASE S = 8
    <3>1. /\ want' = IF pos + n <= N THEN pos + n ELSE 0
          /\ pos' = IF pos + n <= N THEN pos + n + 1 ELSE N + 1
      BY <2>1
    <3>2. Base + N * 8 <= Top /\ Base \in Nat /\ N \in Nat /\ Top \in Nat
      BY <2>8, Params
    <3>3. /\ a \in Nat /\ pos \in Nat /\ pos >= 1 /\ pos <= N + 1
          /\ IF pos <= N THEN a = Base + (pos - 1) * 8 ELSE a >= Base + N * 8
      BY <2>8 DEF Inv, ListInv
    <3> DEFINE t == n * 8
               u == a + (IF t > Top THEN Top ELSE t)
               b == IF u > Top THEN Top ELSE u
    <3>4. IF b + 8 > Top \/ b + 8 > Base + N * 8
          THEN r' = 0 /\ a' = b
          ELSE r' = (b - Base) \div 8 + 1 /\ a' = b + 8
      BY <2>1, <2>8 DEF Sat
    <3>5. t \in Nat /\ t = n * 8 BY Z3
    <3>6. b \in Nat BY <3>5, <3>2, <3>3, Z3
    <3>7. CASE pos + n <= N
      <4>1. b = Base + (pos + n - 1) * 8 /\ b + 8 <= Base + N * 8
        BY <3>7, <3>2, <3>3, <3>5, Z3
      <4> HIDE DEF b
      <4>d. b - Base = (pos + n - 1) * 8
        BY <4>1, <3>2, <3>3
      <4>e. (b - Base) \div 8 = pos + n - 1
        BY <4>d, <3>3, Mul8
      <4>f. ~(b + 8 > Top) /\ ~(b + 8 > Base + N * 8)
        BY <4>1, <3>2, <3>6
      <4>2. (b - Base) \div 8 + 1 = pos + n /\ a' = b + 8 /\ r' = pos + n
        BY <4>e, <4>f, <3>4, <3>3
      <4>3. /\ a' \in Nat /\ pos' \in Nat /\ pos' >= 1 /\ pos' <= N + 1
            /\ IF pos' <= N THEN a' = Base + (pos' - 1) * 8 ELSE a' >= Base + N * 8
            /\ r' = want'
        BY <4>1, <4>2, <3>1, <3>2, <3>3, <3>6, <3>7, Z3
      <4> QED BY <4>3, <2>8 DEF ListInv
    <3>8. CASE pos + n > N
      <4>u. a + t >= Base + N * 8 /\ t \in Nat
        <5> HIDE DEF t
        <5>1. CASE pos <= N
          <6>1. a = Base + (pos - 1) * 8 BY <5>1, <3>3
          <6>2. (pos - 1) * 8 + n * 8 >= N * 8 BY <3>8, <3>2, <3>3, Z3
          <6> QED BY <6>1, <6>2, <3>5, <3>2, <3>3
        <5>2. CASE pos > N
          <6>1. a >= Base + N * 8 BY <5>2, <3>3, <3>2
          <6> QED BY <6>1, <3>5, <3>2, <3>3
        <5> QED BY <5>1, <5>2, <3>2, <3>3
      <4>0. u >= Base + N * 8
        <5> HIDE DEF t
        <5> QED BY <4>u, <3>2, <3>3, Z3
      <4>1. b >= Base + N * 8
        <5> HIDE DEF u
        <5> QED BY <4>0, <3>2, Z3
      <4> HIDE DEF b
      <4>2. a' = b /\ r' = 0
        BY <4>1, <3>4, <3>2, <3>6, Z3
      <4>3. /\ a' \in Nat /\ pos' \in Nat /\ pos' >= 1 /\ pos' <= N + 1
            /\ IF pos' <= N THEN a' = Base + (pos' - 1) * 8 ELSE a' >= Base + N * 8
            /\ r' = want'
        BY <4>1, <4>2, <3>1, <3>2, <3>3, <3>6, <3>8, Z3
      <4> QED BY <4>3, <2>8 DEF ListInv
    <3> QED BY <3>3, <3>7, <3>8, <3>2
  <2> QED BY <2>4, <2>8, Params
<1> QED BY <1>1, <1>2 DEF Inv

THEOREM BigKeeps == Inv /\ Big => Inv'
<1> SUFFICES ASSUME Inv, Big PROVE Inv'
  OBVIOUS
<1>1. ListInv' BY DEF Inv, ListInv, Big
<1>2. BigInv'
  <2>1. PICK n \in Nat :
        LET m == Monus(left, Sat(n * Step)) IN
            /\ bwant' = IF bpos + n <= Segs THEN bpos + n ELSE 0
            /\ bpos' = IF bpos + n <= Segs THEN bpos + n + 1 ELSE Segs + 1
            /\ IF m = 0 THEN br' = 0 /\ left' = 0 /\ UNCHANGED p
               ELSE LET at == p + n * 4 IN
                    IF at + 4 > Base + Segs * 4 THEN br' = 0 /\ left' = m /\ p' = at
                    ELSE /\ br' = (at - Base) \div 4 + 1
                         /\ p' = at + 4
                         /\ left' = m - (IF m < Step THEN m ELSE Step)
    BY DEF Big
  <2>2. /\ left \in Nat /\ p \in Nat /\ bpos \in Nat /\ bpos >= 1 /\ bpos <= Segs + 1
        /\ left = (IF Size > (bpos - 1) * 16344 THEN Size - (bpos - 1) * 16344 ELSE 0)
        /\ bpos <= Segs => p = Base + (bpos - 1) * 4
    BY DEF Inv, BigInv, Monus, Step
  <2>3. /\ Segs \in Nat /\ Segs * 16344 >= Size /\ (Segs > 0 => (Segs - 1) * 16344 < Size) /\ (Size = 0 <=> Segs = 0)
        /\ Size \in Nat /\ Base \in Nat /\ Top \in Nat /\ Size <= Top
    BY SegsDef, Params DEF Step
  <2> DEFINE t == n * 16344
             s == IF t > Top THEN Top ELSE t
             m == IF left > s THEN left - s ELSE 0
             at == p + n * 4
             take == IF m < 16344 THEN m ELSE 16344
  <2>4. IF m = 0 THEN br' = 0 /\ left' = 0 /\ p' = p
        ELSE IF at + 4 > Base + Segs * 4 THEN br' = 0 /\ left' = m /\ p' = at
        ELSE br' = (at - Base) \div 4 + 1 /\ p' = at + 4 /\ left' = m - take
    BY <2>1 DEF Sat, Monus, Step
  <2>5. /\ bwant' = IF bpos + n <= Segs THEN bpos + n ELSE 0
        /\ bpos' = IF bpos + n <= Segs THEN bpos + n + 1 ELSE Segs + 1
    BY <2>1
  <2>t. t \in Nat /\ t = n * 16344 BY Z3
  <2>m. m \in Nat /\ m = (IF left > t THEN left - t ELSE 0)
    <3> HIDE DEF t
    <3>1. left <= Top
      BY <2>2, <2>3, Z3
    <3> QED BY <3>1, <2>t, <2>2, <2>3
  <2> HIDE DEF m, t, s
  <2>6. CASE bpos + n <= Segs
    <3>1. m = Size - (bpos + n - 1) * 16344 /\ m > 0
      BY <2>m, <2>t, <2>2, <2>3, <2>6, Z3
    <3>2. at = Base + (bpos + n - 1) * 4 /\ at + 4 <= Base + Segs * 4 /\ (at - Base) \div 4 + 1 = bpos + n /\ at \in Nat
      BY <2>2, <2>3, <2>6, Z3
    <3> HIDE DEF at
    <3>3. br' = bpos + n /\ p' = at + 4 /\ left' = m - (IF m < 16344 THEN m ELSE 16344)
      BY <3>1, <3>2, <2>3, <2>4, <2>m, Z3
    <3>l. left' = (IF Size > (bpos + n) * 16344 THEN Size - (bpos + n) * 16344 ELSE 0) /\ left' \in Nat
      BY <3>1, <3>3, <2>2, <2>3, <2>m
    <3>b. bpos' = bpos + n + 1 /\ bwant' = bpos + n /\ bpos' - 1 = bpos + n
      BY <2>5, <2>6, <2>2
    <3>4. /\ left' \in Nat /\ p' \in Nat /\ bpos' \in Nat /\ bpos' >= 1 /\ bpos' <= Segs + 1
          /\ left' = (IF Size > (bpos' - 1) * 16344 THEN Size - (bpos' - 1) * 16344 ELSE 0)
          /\ (bpos' <= Segs => p' = Base + (bpos' - 1) * 4)
          /\ br' = bwant'
      BY <3>l, <3>b, <3>2, <3>3, <2>2, <2>3, <2>6
    <3> QED BY <3>4 DEF BigInv, Monus, Step
  <2>7. CASE bpos + n > Segs
    <3>0. n * 16344 >= left
      <4>1. (bpos - 1) * 16344 + n * 16344 >= Segs * 16344 BY <2>2, <2>3, <2>7, Z3
      <4>2. left = 0 \/ left = Size - (bpos - 1) * 16344 BY <2>2
      <4> QED BY <4>1, <4>2, <2>2, <2>3, Z3
    <3>1. m = 0
      BY <3>0, <2>m, <2>t, <2>2
    <3>2. br' = 0 /\ left' = 0 /\ p' = p /\ bwant' = 0 /\ bpos' = Segs + 1
      BY <3>1, <2>4, <2>5, <2>7, <2>2, <2>3
    <3>3. 0 = (IF Size > ((Segs + 1) - 1) * 16344 THEN Size - ((Segs + 1) - 1) * 16344 ELSE 0)
      BY <2>3, Z3
    <3> QED BY <3>2, <3>3, <2>2, <2>3 DEF BigInv, Monus, Step
  <2> QED BY <2>6, <2>7, <2>2, <2>3
<1> QED BY <1>1, <1>2 DEF Inv

THEOREM Safe == Spec => []Correct
<1>1. Inv /\ [Next]_vars => Inv'
  <2>1. Inv /\ UNCHANGED vars => Inv'
    BY DEF Inv, ListInv, BigInv, vars
  <2> QED BY <2>1, ListKeeps, BigKeeps DEF Next
<1>2. Inv => Correct
  BY DEF Inv, ListInv, BigInv, Correct
<1> QED BY Start, <1>1, <1>2, PTL DEF Spec

THEOREM Announces == Inv => Announced
<1> SUFFICES ASSUME Inv PROVE Announced
  OBVIOUS
<1>1. (IF a < Base + N * S THEN (Base + N * S - a) \div S ELSE 0) = N + 1 - pos
  <2>4. CASE S = 4
    <3>1. /\ a \in Nat /\ pos \in Nat /\ pos >= 1 /\ pos <= N + 1 /\ Base \in Nat /\ N \in Nat
          /\ IF pos <= N THEN a = Base + (pos - 1) * 4 ELSE a >= Base + N * 4
      BY <2>4, Params DEF Inv, ListInv
    <3>2. (IF a < Base + N * 4 THEN (Base + N * 4 - a) \div 4 ELSE 0) = N + 1 - pos
      BY <3>1, Z3
    <3> QED BY <3>2, <2>4
  <2>8. CASE S = 8
    <3>1. /\ a \in Nat /\ pos \in Nat /\ pos >= 1 /\ pos <= N + 1 /\ Base \in Nat /\ N \in Nat
          /\ IF pos <= N THEN a = Base + (pos - 1) * 8 ELSE a >= Base + N * 8
      BY <2>8, Params DEF Inv, ListInv
    <3>2. (IF a < Base + N * 8 THEN (Base + N * 8 - a) \div 8 ELSE 0) = N + 1 - pos
      BY <3>1, Z3
    <3> QED BY <3>2, <2>8
  <2> QED BY <2>4, <2>8, Params
<1>2. (left + (Step - 1)) \div Step = Segs + 1 - bpos
  <2>1. /\ left \in Nat /\ bpos \in Nat /\ bpos >= 1 /\ bpos <= Segs + 1
        /\ left = (IF Size > (bpos - 1) * 16344 THEN Size - (bpos - 1) * 16344 ELSE 0)
    BY DEF Inv, BigInv, Monus, Step
  <2>2. /\ Segs \in Nat /\ Segs * 16344 >= Size /\ (Segs > 0 => (Segs - 1) * 16344 < Size) /\ (Size = 0 <=> Segs = 0) /\ Size \in Nat
    BY SegsDef, Params DEF Step
  <2>3. (left + 16343) \div 16344 = Segs + 1 - bpos
    <3> DEFINE k == Segs + 1 - bpos
    <3>1. k \in Nat /\ k * 16344 >= left /\ (k > 0 => (k - 1) * 16344 < left)
      BY <2>1, <2>2
    <3> HIDE DEF k
    <3>2. (left + 16343) \div 16344 = k
      BY <3>1, <2>1, Z3
    <3> QED BY <3>2 DEF k
  <2> QED BY <2>3 DEF Step
<1> QED BY <1>1, <1>2 DEF Announced
===============================================================================
