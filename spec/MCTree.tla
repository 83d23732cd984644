-------------------------------- MODULE MCTree --------------------------------
(* Clearing the volatile counts (C14): the reader's recursion over a tree of  *)
(* keys, stopping at the first thing it cannot read - against "all reachable  *)
(* counts or an error, and never anything else".                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS MaxNodes, MaxBad

(* Node 1 is the root, the parent of node i > 1 is a smaller node.            *)
Parents(n) == {p \in [1..n -> 0..(n - 1)] : p[1] = 0 /\ \A i \in 2..n : p[i] >= 1 /\ p[i] < i}
Kids(p, k) == SelectSeq([i \in 1..Len(p) |-> i], LAMBDA i : p[i] = k)
(* faults: a node whose list cannot be read, or an unreadable element at a    *)
(* place between the children of a node                                       *)
Faults(p) == [t : {"list"}, n : 1..Len(p), at : {0}]
             \cup {f \in [t : {"item"}, n : 1..Len(p), at : 0..Len(p)] : f.at <= Len(Kids(p, f.n))}
FaultSets(p) == {{}} \cup {{f} : f \in Faults(p)} \cup (IF MaxBad < 2 THEN {} ELSE {{f, g} : f, g \in Faults(p)})

Elements(p, fs, k) ==        \* children in order, 0 for an unreadable one
  LET ks == Kids(p, k)
      bad(j) == IF [t |-> "item", n |-> k, at |-> j] \in fs THEN <<0>> ELSE <<>>
  IN bad(0) \o FoldLeft(LAMBDA a, j : a \o <<ks[j]>> \o bad(j), <<>>, [j \in 1..Len(ks) |-> j])
BadList(fs, k) == [t |-> "list", n |-> k, at |-> 0] \in fs

VARIABLES p, fs, stack, cleared, res, runs
vars == <<p, fs, stack, cleared, res, runs>>
(* stack: nodes being cleared, with the elements still to be visited *)
Init == /\ p \in UNION {Parents(n) : n \in 1..MaxNodes}
        /\ fs \in FaultSets(p)
        /\ stack = <<[k |-> 1, todo |-> <<>>, fresh |-> TRUE]>> /\ cleared = {} /\ res = "?" /\ runs = 1

Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Step ==
  /\ res = "?"
  /\ UNCHANGED <<p, fs, runs>>
  /\ IF stack = <<>> THEN res' = "ok" /\ UNCHANGED <<stack, cleared>>
     ELSE IF Top.fresh
     THEN /\ cleared' = cleared \cup {Top.k}
          /\ IF BadList(fs, Top.k) THEN res' = "error" /\ UNCHANGED stack
             ELSE stack' = Append(Rest, [Top EXCEPT !.fresh = FALSE, !.todo = Elements(p, fs, Top.k)]) /\ UNCHANGED res
     ELSE IF Top.todo = <<>> THEN stack' = Rest /\ UNCHANGED <<cleared, res>>
     ELSE IF Head(Top.todo) = 0 THEN res' = "error" /\ UNCHANGED <<stack, cleared>>
     ELSE /\ stack' = Append(Append(Rest, [Top EXCEPT !.todo = Tail(@)]), [k |-> Head(Top.todo), todo |-> <<>>, fresh |-> TRUE])
          /\ UNCHANGED <<cleared, res>>
Again == /\ res \in {"ok", "error"} /\ runs = 1
         /\ runs' = 2 /\ res' = "?" /\ stack' = <<[k |-> 1, todo |-> <<>>, fresh |-> TRUE]>>
         /\ UNCHANGED <<p, fs, cleared>>
Next == Step \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* -------------------------------- contract -------------------------------- *)
RECURSIVE ReachFrom(_)
ReachFrom(k) == {k} \cup (IF BadList(fs, k) THEN {} ELSE UNION {ReachFrom(c) : c \in {x \in 2..Len(p) : p[x] = k}})
Reachable == ReachFrom(1)
Faulty == \E f \in fs : f.n \in Reachable
OnlyReachable == cleared \subseteq Reachable
AllOrError == /\ res = "ok" => cleared = Reachable /\ ~Faulty
              /\ res = "error" => Faulty
Parenthood == \A k \in cleared : k = 1 \/ p[k] \in cleared
SecondChangesNothing == [][runs = 2 => cleared' = cleared]_vars
Terminates == <>[](res # "?")

Export == (runs = 1 /\ cleared = {} /\ res = "?") => PrintT(ToJson([p |-> p, fs |-> SetToSeq(fs)]))
=============================================================================
