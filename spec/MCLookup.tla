------------------------------- MODULE MCLookup -------------------------------
(* Lookup by name (C05) as the reader does it: binary search over the leaves  *)
(* of an index root by their first and last item, then binary search inside   *)
(* one leaf - against the contract of HiveFormat!LookupIn.                    *)
EXTENDS ListShapes, TLC, Json

CONSTANTS Sorted, Loose, LooseNames, Items, Leaves     \* sizes of the families of lists

Lists == SortedLists(Sorted) \cup AnyLists(Loose, LooseNames) \cup DamagedItems(Items) \cup DamagedLeaves(Leaves)
TopOf(L) == 2 * (Len(Denotes(L)) + 1)

(* results: a name, or *)
Nothing == -1
Error == -2
Unset == -3

VARIABLES L, q, ph, left, right, leaf, res
vars == <<L, q, ph, left, right, leaf, res>>

Init ==
  /\ L \in Lists
  /\ q \in 0..TopOf(L)
  /\ ph = IF L.form = "root" THEN "root" ELSE "leaf"
  /\ left = 0
  /\ right = IF L.form = "root" THEN Len(L.l) - 1 ELSE Len(L.l[1].i) - 1
  /\ leaf = 1
  /\ res = Unset

Mid == (left + right) \div 2
Finish(r) == ph' = "done" /\ res' = r /\ UNCHANGED <<L, q, left, right, leaf>>
(* reading item x: its name as a number, or an error *)
Readable(x) == x > 0

Root ==
  /\ ph = "root"
  /\ IF left > right THEN Finish(Nothing)
     ELSE LET f == L.l[Mid + 1] IN
          IF f.t # "ok" THEN Finish(Error)
          ELSE LET first == f.i[1]  last == f.i[Len(f.i)] IN
               IF ~Readable(first) THEN Finish(Error)
               ELSE IF first = q THEN Finish(first)
               ELSE IF first > q THEN right' = Mid - 1 /\ UNCHANGED <<L, q, ph, left, leaf, res>>
               ELSE IF ~Readable(last) THEN Finish(Error)
               ELSE IF last = q THEN Finish(last)
               ELSE IF last < q THEN left' = Mid + 1 /\ UNCHANGED <<L, q, ph, right, leaf, res>>
               ELSE ph' = "leaf" /\ leaf' = Mid + 1 /\ left' = 0 /\ right' = Len(f.i) - 1 /\ UNCHANGED <<L, q, res>>

InLeaf ==
  /\ ph = "leaf"
  /\ IF left > right THEN Finish(Nothing)
     ELSE LET x == L.l[leaf].i[Mid + 1] IN
          IF ~Readable(x) THEN Finish(Error)
          ELSE IF x = q THEN Finish(x)
          ELSE /\ IF x < q THEN left' = Mid + 1 /\ UNCHANGED right ELSE right' = Mid - 1 /\ UNCHANGED left
               /\ UNCHANGED <<L, q, ph, leaf, res>>

Next == Root \/ InLeaf
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* -------------------------------- contract -------------------------------- *)
Done == ph = "done"
FoundIsListed == (Done /\ res \notin {Nothing, Error}) => res = q /\ \E j \in 1..Len(Denotes(L)) : Denotes(L)[j] = q
FindsAll == (Done /\ Clean(L) /\ IsAscending(L)) => ((res = Nothing) <=> ~\E j \in 1..Len(Denotes(L)) : Denotes(L)[j] = q)
ErrorNeedsFault == (Done /\ res = Error) => ~Clean(L)
Terminates == <>(ph = "done")

Export == (ph # "done" /\ q = 0 /\ left = 0 /\ right = (IF L.form = "root" THEN Len(L.l) ELSE Len(L.l[1].i)) - 1 /\ leaf = 1)
          => PrintT(ToJson([form |-> L.form, l |-> L.l, top |-> TopOf(L)]))
===============================================================================
