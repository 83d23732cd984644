-------------------------------- MODULE MCPath --------------------------------
(* Resolving a path (C06): the reader splits at backslashes, skips empty      *)
(* pieces and looks up one component after the other - against the contract   *)
(* of chained single lookups.                                                 *)
(* Characters: 0 the backslash, others part of names.                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS MaxLen, Letters, Depth

Paths == UNION {[1..n -> 0..Letters] : n \in 0..MaxLen}

(* A tree: names of length up to two over the letters; a node answers to a    *)
(* component by a child, by nothing (0) or by an error (-1).  Nodes 1..Depth;  *)
(* which component leads where is arbitrary, so it is left open: Reply.        *)
Comps == UNION {[1..n -> 1..Letters] : n \in 1..MaxLen}
VARIABLES p, i, word, node, script, res, asked
vars == <<p, i, word, node, script, res, asked>>
(* script: the replies of the lookups in order: a child, nothing, an error *)
Replies == {"child", "none", "error"}
Init == /\ p \in Paths /\ script \in [1..Depth -> Replies]
        /\ i = 1 /\ word = <<>> /\ node = 1 /\ res = "?" /\ asked = <<>>

Finish(r) == res' = r /\ UNCHANGED <<p, i, word, node, script, asked>>
Reply(n) == IF n <= Depth THEN script[n] ELSE "child"
Ask ==         \* the word is complete: look it up
  LET a == Append(asked, word)
      r == Reply(Len(a))
  IN /\ asked' = a /\ word' = <<>>
     /\ IF r = "child" THEN node' = node + 1 /\ i' = i + 1 /\ UNCHANGED res ELSE res' = r /\ UNCHANGED <<i, node>>
     /\ UNCHANGED <<p, script>>
Step ==
  /\ res = "?"
  /\ IF i > Len(p) + 1 THEN Finish("here")
     ELSE IF i = Len(p) + 1 \/ p[i] = 0
          THEN IF word = <<>> THEN i' = i + 1 /\ UNCHANGED <<p, word, node, script, res, asked>> ELSE Ask
          ELSE word' = Append(word, p[i]) /\ i' = i + 1 /\ UNCHANGED <<p, node, script, res, asked>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* -------------------------------- contract -------------------------------- *)
RECURSIVE Split(_)
Split(s) ==        \* maximal runs without a backslash
  IF s = <<>> THEN <<>>
  ELSE IF Head(s) = 0 THEN Split(Tail(s))
  ELSE LET e == CHOOSE k \in 1..Len(s) : (\A m \in 1..k : s[m] # 0) /\ (k = Len(s) \/ s[k + 1] = 0)
       IN <<SubSeq(s, 1, e)>> \o Split(SubSeq(s, e + 1, Len(s)))
Done == res # "?"
StopAt == {k \in 1..Len(Split(p)) : Reply(k) # "child"}
Chained == Done =>
  IF StopAt = {} THEN res = "here" /\ asked = Split(p) /\ node = Len(Split(p)) + 1
  ELSE LET k == CHOOSE x \in StopAt : \A y \in StopAt : x <= y
       IN res = Reply(k) /\ asked = SubSeq(Split(p), 1, k)
NoEmptyQuestions == \A k \in 1..Len(asked) : asked[k] # <<>>
Terminates == <>Done

Export == (i = 1 /\ res = "?" /\ word = <<>> /\ \A k \in 1..Depth : script[k] = "child") => PrintT(ToJson([p |-> p]))
=============================================================================
