------------------------------- MODULE MCValues -------------------------------
(* Looking up a value by name (C07): the reader scans the list from the front *)
(* - against the contract "the first match, or the first thing that could not *)
(* be read before it, or nothing".                                            *)
(* Entries: n > 0 a value with name n, 0 an unreadable value, -1 a value      *)
(* whose name cannot be read.  Name 1 is the empty name (default value).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, NameCount

Entries == (-1)..NameCount
Lists == UNION {[1..n -> Entries] : n \in 0..MaxLen}
(* the announced count: as many as fit, fewer, or more than the cell holds *)
Counts == {"fits", "fewer", "over"}

VARIABLES L, cnt, q, i, res
vars == <<L, cnt, q, i, res>>

Unset == -9
Nothing == -8
ErrAt(j) == -100 - j        \* the error in place of entry j
ListErr == -7

Init == L \in Lists /\ cnt \in Counts /\ q \in 1..(NameCount + 1) /\ i = 1 /\ res = Unset
N == CASE cnt = "fits" -> Len(L) [] cnt = "fewer" -> IF Len(L) = 0 THEN 0 ELSE Len(L) - 1 [] cnt = "over" -> Len(L) + 1

Scan ==
  /\ res = Unset
  /\ IF cnt = "over" THEN res' = ListErr /\ UNCHANGED i
     ELSE IF i > N THEN res' = Nothing /\ UNCHANGED i
     ELSE IF L[i] \in {0, -1} THEN res' = ErrAt(i) /\ UNCHANGED i
     ELSE IF L[i] = q THEN res' = i /\ UNCHANGED i
     ELSE i' = i + 1 /\ UNCHANGED res
  /\ UNCHANGED <<L, cnt, q>>
Next == Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* -------------------------------- contract -------------------------------- *)
Done == res # Unset
Stops(j) == L[j] \in {0, -1, q}
FirstStop == CHOOSE j \in 1..N : Stops(j) /\ \A m \in 1..(j - 1) : ~Stops(m)
Exact == Done =>
  IF cnt = "over" THEN res = ListErr
  ELSE IF ~\E j \in 1..N : Stops(j) THEN res = Nothing
  ELSE res = (IF L[FirstStop] = q THEN FirstStop ELSE ErrAt(FirstStop))
NeverOther == (Done /\ res > 0) => L[res] = q
Terminates == <>Done

Export == (res = Unset /\ i = 1 /\ q = 1) => PrintT(ToJson([l |-> L, cnt |-> cnt]))
=============================================================================
