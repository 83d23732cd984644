----------------------------- MODULE ListShapes -----------------------------
(* Abstract subkeys lists: what a list may look like, without bytes.          *)
(* Names are numbers (their rank in registry order).                          *)
(*   an item  : a name n > 0; 0 = the key cannot be read;                     *)
(*              -n = the key n can be read, its name cannot                   *)
(*   a leaf   : [t |-> "ok", i |-> items], or a faulty one:                   *)
(*              "empty" (no items), "nested" (an index root), "junk" (unknown *)
(*              signature), "over" (overruns its cell), "gone" (bad cell)     *)
(*   a list   : [form |-> "leaf", l |-> <<leaf>>] or [form |-> "root", l]     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

FaultyLeaf == {"empty", "nested", "junk", "over", "gone"}
Leaf(s) == [t |-> "ok", i |-> s]
Faulty(k) == [t |-> k, i |-> <<>>]

(* all ways to cut a sequence into non-empty pieces *)
RECURSIVE Cuts(_)
Cuts(s) == IF s = <<>> THEN {<<>>}
           ELSE UNION {{<<SubSeq(s, 1, k)>> \o r : r \in Cuts(SubSeq(s, k + 1, Len(s)))} : k \in 1..Len(s)}

AsRoot(cut) == [form |-> "root", l |-> [j \in 1..Len(cut) |-> Leaf(cut[j])]]
AsLeaf(s) == [form |-> "leaf", l |-> <<Leaf(s)>>]
Both(s) == {AsLeaf(s)} \cup {AsRoot(c) : c \in Cuts(s)}

Odd(n) == [i \in 1..n |-> 2 * i - 1]

(* strictly ascending lists of every length up to n, in every partition *)
SortedLists(n) == UNION {Both(Odd(k)) : k \in 0..n}
(* any order, repeated names *)
AnyLists(n, m) == UNION {UNION {Both(s) : s \in [1..k -> {2 * i - 1 : i \in 1..m}]} : k \in 1..n}
(* ascending lists in which some items are unreadable *)
DamagedItems(n) ==
  UNION {UNION {Both([i \in 1..k |-> CASE d[i] = "ok" -> 2 * i - 1 [] d[i] = "key" -> 0 [] d[i] = "name" -> 1 - 2 * i])
                : d \in [1..k -> {"ok", "key", "name"}]} : k \in 1..n}
(* index roots in which some leaves are faulty *)
RECURSIVE Inserted(_, _)
Inserted(L, bads) ==    \* every list in which each faulty leaf of bads is inserted somewhere
  IF bads = <<>> THEN {L}
  ELSE UNION {Inserted([L EXCEPT !.l = SubSeq(L.l, 1, p) \o <<Faulty(Head(bads))>> \o SubSeq(L.l, p + 1, Len(L.l))], Tail(bads))
              : p \in 0..Len(L.l)}
DamagedLeaves(n) ==
  UNION {UNION {Inserted(AsRoot(c), <<k>>) : c \in Cuts(Odd(m)), k \in FaultyLeaf} : m \in 0..n}
  \cup UNION {UNION {Inserted(AsRoot(c), <<k, j>>) : c \in Cuts(Odd(m)), k \in {"empty", "gone"}, j \in {"junk", "gone"}} : m \in 0..(n - 1)}

(* ------------------------------ the contract ------------------------------ *)
(* the sequence the list denotes: a faulty leaf counts as one faulty element  *)
Denotes(L) == FoldLeft(LAMBDA acc, f : acc \o (IF f.t = "ok" THEN f.i ELSE <<0>>), <<>>, L.l)
Clean(L) == \A j \in 1..Len(Denotes(L)) : Denotes(L)[j] > 0
IsAscending(L) == \A j \in 1..(Len(Denotes(L)) - 1) : Denotes(L)[j] <= Denotes(L)[j + 1]
=============================================================================
