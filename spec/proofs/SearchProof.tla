----------------------------- MODULE SearchProof -----------------------------
(* The two-level binary search of the reader (MCLookup, without faults), for  *)
(* lists of ANY size: what it returns is listed and is the name sought, and   *)
(* when it returns nothing the name is in no leaf.  Checked by TLAPS.         *)
EXTENDS Integers, TLAPS

CONSTANTS NL,        \* number of leaves
          Len,       \* Len[l]: number of items of leaf l
          K,         \* K[l][i]: the (folded) name of item i of leaf l, as a number
          q          \* the name sought

Leaves == 1..NL
Items(l) == 1..Len[l]

ASSUME Sizes == /\ NL \in Nat
                /\ \A l \in Leaves : Len[l] \in Nat /\ Len[l] > 0
                /\ \A l \in Leaves : \A i \in Items(l) : K[l][i] \in Int
                /\ q \in Int
ASSUME Ascending ==
  /\ \A l \in Leaves : \A i, j \in Items(l) : i < j => K[l][i] <= K[l][j]
  /\ \A l, m \in Leaves : l < m => \A i \in Items(l), j \in Items(m) : K[l][i] <= K[m][j]

VARIABLES ph, left, right, leaf, at       \* at: <<leaf, item>> found, or <<0, 0>>
vars == <<ph, left, right, leaf, at>>

Mid == (left + right) \div 2

Init == ph = "root" /\ left = 0 /\ right = NL - 1 /\ leaf = 1 /\ at = <<0, 0>>

Root ==
  /\ ph = "root"
  /\ IF left > right
     THEN ph' = "done" /\ UNCHANGED <<left, right, leaf, at>>
     ELSE LET m == Mid + 1  first == K[m][1]  last == K[m][Len[m]] IN
          IF first = q THEN ph' = "done" /\ at' = <<m, 1>> /\ UNCHANGED <<left, right, leaf>>
          ELSE IF first > q THEN right' = Mid - 1 /\ UNCHANGED <<ph, left, leaf, at>>
          ELSE IF last = q THEN ph' = "done" /\ at' = <<m, Len[m]>> /\ UNCHANGED <<left, right, leaf>>
          ELSE IF last < q THEN left' = Mid + 1 /\ UNCHANGED <<ph, right, leaf, at>>
          ELSE ph' = "leaf" /\ leaf' = m /\ left' = 0 /\ right' = Len[m] - 1 /\ UNCHANGED at

InLeaf ==
  /\ ph = "leaf"
  /\ IF left > right
     THEN ph' = "done" /\ UNCHANGED <<left, right, leaf, at>>
     ELSE LET x == K[leaf][Mid + 1] IN
          IF x = q THEN ph' = "done" /\ at' = <<leaf, Mid + 1>> /\ UNCHANGED <<left, right, leaf>>
          ELSE IF x < q THEN left' = Mid + 1 /\ UNCHANGED <<ph, right, leaf, at>>
          ELSE right' = Mid - 1 /\ UNCHANGED <<ph, left, leaf, at>>

Next == Root \/ InLeaf
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
NotIn(l) == \A i \in Items(l) : K[l][i] # q

Inv ==
  /\ ph \in {"root", "leaf", "done"}
  /\ left \in Int /\ right \in Int /\ leaf \in Int
  /\ ph = "root" => /\ 0 <= left /\ left <= right + 1 /\ right < NL
                    /\ at = <<0, 0>>
                    /\ \A l \in Leaves : (l - 1 < left \/ l - 1 > right) => NotIn(l)
  /\ ph = "leaf" => /\ leaf \in Leaves
                    /\ 0 <= left /\ left <= right + 1 /\ right < Len[leaf]
                    /\ at = <<0, 0>>
                    /\ \A l \in Leaves : l # leaf => NotIn(l)
                    /\ \A i \in Items(leaf) : (i - 1 < left \/ i - 1 > right) => K[leaf][i] # q
  /\ ph = "done" => \/ at = <<0, 0>> /\ \A l \in Leaves : NotIn(l)
                    \/ \E l \in Leaves : \E i \in Items(l) : at = <<l, i>> /\ K[l][i] = q

(* what the caller sees *)
Correct == ph = "done" => \/ at = <<0, 0>> /\ \A l \in Leaves : NotIn(l)
                          \/ \E l \in Leaves : \E i \in Items(l) : at = <<l, i>> /\ K[l][i] = q
(* every step other than the last shrinks the interval, or enters the leaf once: it terminates *)
Shrinks == [][ph' = ph => right' - left' < right - left]_vars

LEMMA MidBetween == ASSUME NEW a \in Int, NEW b \in Int, a <= b
                    PROVE (a + b) \div 2 \in Int /\ a <= (a + b) \div 2 /\ (a + b) \div 2 <= b
  BY Z3

THEOREM Start == Init => Inv
  BY Sizes, Z3 DEF Init, Inv, NotIn, Leaves, Items

THEOREM RootKeeps == Inv /\ Root => Inv'
<1> SUFFICES ASSUME Inv, Root PROVE Inv'
  OBVIOUS
<1>1. CASE left > right
  BY <1>1, Z3, Sizes DEF Inv, Root, NotIn, Leaves, Items
<1>2. CASE left <= right
  <2> DEFINE m == Mid + 1
  <2>1. Mid \in Int /\ left <= Mid /\ Mid <= right
    BY <1>2, MidBetween DEF Mid, Inv, Root
  <2>2. m \in Leaves /\ Len[m] \in Nat /\ Len[m] > 0 /\ 1 \in Items(m) /\ Len[m] \in Items(m)
    BY <2>1, Sizes DEF Inv, Root, Leaves, Items
  <2>3. K[m][1] \in Int /\ K[m][Len[m]] \in Int /\ q \in Int
    BY <2>2, Sizes
  <2> HIDE DEF m
  <2>a. m = Mid + 1 BY DEF m
  <2>4. CASE K[m][1] = q
    BY <2>1, <2>2, <2>4, <2>a, <1>2 DEF Inv, Root
  <2>5. CASE K[m][1] > q
    <3>1. \A l \in Leaves : l >= m => NotIn(l)
      <4> SUFFICES ASSUME NEW l \in Leaves, l >= m, NEW i \in Items(l) PROVE K[l][i] # q
        BY DEF NotIn
      <4>1. K[l][i] \in Int BY Sizes
      <4>2. CASE l = m
        <5>1. i = 1 \/ 1 < i BY <4>2, Sizes DEF Items
        <5>2. K[m][1] <= K[m][i] BY <5>1, <4>2, <4>1, <2>2, <2>3, Ascending
        <5> QED BY <5>2, <2>5, <2>3, <4>1, <4>2
      <4>3. CASE l > m
        <5>1. K[m][1] <= K[l][i] BY <4>3, <2>2, Ascending
        <5> QED BY <5>1, <2>5, <2>3, <4>1
      <4> QED BY <4>2, <4>3, <2>2, Sizes DEF Leaves
    <3>2. right' = Mid - 1 /\ UNCHANGED <<ph, left, leaf, at>> /\ ph = "root"
      BY <1>2, <2>5, <2>3, <2>a DEF Root, Inv
    <3> QED BY <3>1, <3>2, <2>1, <2>a, <2>2, Sizes DEF Inv, Leaves, NotIn, Items
  <2>6. CASE K[m][1] < q /\ K[m][Len[m]] = q
    BY <2>1, <2>2, <2>3, <2>6, <2>a, <1>2 DEF Inv, Root
  <2>7. CASE K[m][1] < q /\ K[m][Len[m]] < q
    <3>1. \A l \in Leaves : l <= m => NotIn(l)
      <4> SUFFICES ASSUME NEW l \in Leaves, l <= m, NEW i \in Items(l) PROVE K[l][i] # q
        BY DEF NotIn
      <4>1. K[l][i] \in Int BY Sizes
      <4>2. CASE l = m
        <5>1. i = Len[m] \/ i < Len[m] BY <4>2, <2>2 DEF Items
        <5>2. K[m][i] <= K[m][Len[m]] BY <5>1, <4>2, <4>1, <2>2, <2>3, Ascending
        <5> QED BY <5>2, <2>7, <2>3, <4>1, <4>2
      <4>3. CASE l < m
        <5>1. K[l][i] <= K[m][1] BY <4>3, <2>2, Ascending
        <5> QED BY <5>1, <2>7, <2>3, <4>1
      <4> QED BY <4>2, <4>3, <2>2, Sizes DEF Leaves
    <3>2. left' = Mid + 1 /\ UNCHANGED <<ph, right, leaf, at>> /\ ph = "root"
      BY <1>2, <2>7, <2>3, <2>a DEF Root, Inv
    <3> QED BY <3>1, <3>2, <2>1, <2>a, <2>2, Sizes DEF Inv, Leaves, NotIn, Items
  <2>8. CASE K[m][1] < q /\ K[m][Len[m]] > q
    <3>1. \A l \in Leaves : l # m => NotIn(l)
      <4> SUFFICES ASSUME NEW l \in Leaves, l # m, NEW i \in Items(l) PROVE K[l][i] # q
        BY DEF NotIn
      <4>1. K[l][i] \in Int BY Sizes
      <4>2. CASE l < m
        <5>1. K[l][i] <= K[m][1] BY <4>2, <2>2, Ascending
        <5> QED BY <5>1, <2>8, <2>3, <4>1
      <4>3. CASE l > m
        <5>1. K[m][Len[m]] <= K[l][i] BY <4>3, <2>2, Ascending
        <5> QED BY <5>1, <2>8, <2>3, <4>1
      <4> QED BY <4>2, <4>3, <2>2, Sizes DEF Leaves
    <3>2. ph' = "leaf" /\ leaf' = m /\ left' = 0 /\ right' = Len[m] - 1 /\ at' = at /\ ph = "root"
      BY <1>2, <2>8, <2>3, <2>a DEF Root, Inv
    <3>3. \A i \in Items(m) : ~(i - 1 < 0 \/ i - 1 > Len[m] - 1)
      BY <2>2 DEF Items
    <3> QED BY <3>1, <3>2, <3>3, <2>2, Sizes DEF Inv, NotIn, Leaves, Items
  <2> QED BY <2>3, <2>4, <2>5, <2>6, <2>7, <2>8
<1> QED BY <1>1, <1>2 DEF Inv

THEOREM LeafKeeps == Inv /\ InLeaf => Inv'
<1> SUFFICES ASSUME Inv, InLeaf PROVE Inv'
  OBVIOUS
<1>0. ph = "leaf" /\ leaf \in Leaves /\ Len[leaf] \in Nat
  BY Sizes DEF InLeaf, Inv
<1>1. CASE left > right
  <2>1. \A i \in Items(leaf) : K[leaf][i] # q
    <3> SUFFICES ASSUME NEW i \in Items(leaf) PROVE K[leaf][i] # q
      OBVIOUS
    <3>1. i \in Int /\ (i - 1 < left \/ i - 1 > right)
      BY <1>0, <1>1 DEF Inv, Items
    <3> QED BY <3>1, <1>0 DEF Inv
  <2>2. \A l \in Leaves : NotIn(l)
    BY <2>1, <1>0 DEF Inv, NotIn
  <2>3. ph' = "done" /\ UNCHANGED <<left, right, leaf, at>>
    BY <1>1, <1>0 DEF InLeaf
  <2> QED BY <2>2, <2>3, <1>0 DEF Inv, NotIn
<1>2. CASE left <= right
  <2>1. Mid \in Int /\ left <= Mid /\ Mid <= right
    BY <1>0, <1>2, MidBetween DEF Mid, Inv
  <2>2. Mid + 1 \in Items(leaf) /\ K[leaf][Mid + 1] \in Int /\ q \in Int
    BY <2>1, <1>0, Sizes DEF Inv, Items
  <2> DEFINE m == Mid + 1
  <2>a. m = Mid + 1 /\ m \in Int BY <2>1
  <2>b. m \in Items(leaf) /\ K[leaf][m] \in Int BY <2>2
  <2>c. left >= 0 /\ left <= m - 1 /\ m - 1 <= right /\ right < Len[leaf] /\ left \in Int /\ right \in Int
    BY <2>1, <1>0, <2>a DEF Inv
  <2>lo. K[leaf][Mid + 1] < q => left' = Mid + 1 /\ ph' = ph /\ right' = right /\ leaf' = leaf /\ at' = at
    <3> SUFFICES ASSUME K[leaf][Mid + 1] < q PROVE left' = Mid + 1 /\ ph' = ph /\ right' = right /\ leaf' = leaf /\ at' = at
      OBVIOUS
    <3>1. K[leaf][Mid + 1] # q BY <2>2
    <3>2. ~(left > right) BY <1>2, <1>0 DEF Inv
    <3> QED BY <3>1, <3>2 DEF InLeaf
  <2>hi. K[leaf][Mid + 1] > q => right' = Mid - 1 /\ ph' = ph /\ left' = left /\ leaf' = leaf /\ at' = at
    <3> SUFFICES ASSUME K[leaf][Mid + 1] > q PROVE right' = Mid - 1 /\ ph' = ph /\ left' = left /\ leaf' = leaf /\ at' = at
      OBVIOUS
    <3>1. K[leaf][Mid + 1] # q /\ ~(K[leaf][Mid + 1] < q) BY <2>2
    <3>2. ~(left > right) BY <1>2, <1>0 DEF Inv
    <3> QED BY <3>1, <3>2 DEF InLeaf
  <2> HIDE DEF m
  <2>3. CASE K[leaf][m] = q
    BY <2>b, <2>3, <2>a, <1>0, <1>2 DEF Inv, InLeaf
  <2>4. CASE K[leaf][m] < q
    <3>1. \A i \in Items(leaf) : i <= m => K[leaf][i] # q
      <4> SUFFICES ASSUME NEW i \in Items(leaf), i <= m PROVE K[leaf][i] # q
        OBVIOUS
      <4>1. K[leaf][i] \in Int BY <1>0, Sizes
      <4>2. i = m \/ i < m BY <2>a, <1>0 DEF Items
      <4>3. K[leaf][i] <= K[leaf][m] BY <4>2, <4>1, <1>0, <2>b, Ascending
      <4> QED BY <4>1, <4>3, <2>4, <2>2, <2>b
    <3>2. left' = m /\ ph' = ph /\ right' = right /\ leaf' = leaf /\ at' = at
      BY <2>lo, <2>4, <2>a
    <3>3. \A i \in Items(leaf) : i - 1 < m => i <= m
      BY <2>a, <1>0 DEF Items
    <3> QED BY <3>1, <3>2, <3>3, <2>a, <2>c, <1>0 DEF Inv, NotIn
  <2>5. CASE K[leaf][m] > q
    <3>1. \A i \in Items(leaf) : i >= m => K[leaf][i] # q
      <4> SUFFICES ASSUME NEW i \in Items(leaf), i >= m PROVE K[leaf][i] # q
        OBVIOUS
      <4>1. K[leaf][i] \in Int BY <1>0, Sizes
      <4>2. i = m \/ m < i BY <2>a, <1>0 DEF Items
      <4>3. K[leaf][m] <= K[leaf][i] BY <4>2, <4>1, <1>0, <2>b, Ascending
      <4> QED BY <4>1, <4>3, <2>5, <2>2, <2>b
    <3>2. right' = m - 2 /\ ph' = ph /\ left' = left /\ leaf' = leaf /\ at' = at
      BY <2>hi, <2>5, <2>a, <2>1
    <3>3. \A i \in Items(leaf) : i - 1 > m - 2 => i >= m
      BY <2>a, <1>0 DEF Items
    <3> QED BY <3>1, <3>2, <3>3, <2>a, <2>c, <1>0 DEF Inv, NotIn
  <2> QED BY <2>2, <2>b, <2>3, <2>4, <2>5
<1> QED BY <1>1, <1>2 DEF Inv

THEOREM Safe == Spec => []Correct
<1>1. Inv /\ [Next]_vars => Inv'
  <2>1. Inv /\ UNCHANGED vars => Inv'
    BY DEF Inv, vars, NotIn, Leaves, Items
  <2> QED BY <2>1, RootKeeps, LeafKeeps DEF Next
<1>2. Inv => Correct
  BY DEF Inv, Correct
<1> QED BY Start, <1>1, <1>2, PTL DEF Spec

THEOREM Progress == Inv /\ Next /\ ph' = ph => right' - left' < right - left
<1> SUFFICES ASSUME Inv, Next, ph' = ph PROVE right' - left' < right - left
  OBVIOUS
<1>1. left <= right
  BY DEF Inv, Next, Root, InLeaf
<1>2. left \in Int /\ right \in Int BY DEF Inv
<1>3. Mid \in Int /\ left <= Mid /\ Mid <= right
  BY <1>1, <1>2, MidBetween DEF Mid
<1>4. (right' = Mid - 1 /\ left' = left) \/ (left' = Mid + 1 /\ right' = right)
  BY <1>1, <1>2 DEF Next, Root, InLeaf
<1> QED BY <1>2, <1>3, <1>4
===============================================================================
