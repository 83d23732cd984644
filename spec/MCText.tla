------------------------------- MODULE MCText -------------------------------
(* Text of REG_SZ and REG_MULTI_SZ values (C10) as the reader decodes it: one *)
(* pass over the slices, a high surrogate pending across them - against the   *)
(* contract over the whole sequence of code units.                            *)
(* Symbols: 0 NUL, 1 an ordinary unit, 2 a high and 3 a low surrogate.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS MaxUnits, MaxSlices

Texts == UNION {[1..n -> 0..3] : n \in 0..MaxUnits}
RECURSIVE Sliced(_, _)
Sliced(s, k) ==      \* at most k slices, none of them empty
  IF k <= 1 \/ Len(s) <= 1 THEN {<<s>>}
  ELSE {<<s>>} \cup UNION {{<<SubSeq(s, 1, j)>> \o r : r \in Sliced(SubSeq(s, j + 1, Len(s)), k - 1)} : j \in 1..(Len(s) - 1)}
(* the slice after which nothing can be read; 0: all can *)
Configs == UNION {{[p |-> p, bad |-> b, multi |-> m] : p \in Sliced(t, MaxSlices), b \in 0..MaxSlices, m \in BOOLEAN} : t \in Texts}

VARIABLES c, j, i, pend, cur, got, ph     \* slice, unit, pending high surrogate, decoded symbols, finished strings, phase
vars == <<c, j, i, pend, cur, got, ph>>

(* decoded symbols: 1 ordinary, 4 a pair, 5 U+FFFD *)
Init == c \in {x \in Configs : x.bad < Len(x.p)} /\ j = 1 /\ i = 1 /\ pend = FALSE /\ cur = <<>> /\ got = <<>> /\ ph = "run"

Flushed == IF pend THEN Append(cur, 5) ELSE cur
Limit == IF c.bad = 0 THEN Len(c.p) ELSE c.bad
EndText == /\ ph' = "done" /\ pend' = FALSE /\ cur' = <<>>
           /\ got' = IF c.multi /\ Flushed = <<>> THEN got ELSE Append(got, Flushed)
           /\ UNCHANGED <<c, j, i>>
Step ==
  /\ ph = "run"
  /\ IF i > Len(c.p[j])
     THEN IF j < Limit THEN j' = j + 1 /\ i' = 1 /\ UNCHANGED <<c, pend, cur, got, ph>>
          ELSE IF c.bad # 0 THEN ph' = "error" /\ UNCHANGED <<c, j, i, pend, cur, got>>
          ELSE EndText
     ELSE LET u == c.p[j][i] IN
          IF u = 0
          THEN IF ~c.multi \/ Flushed = <<>> THEN EndText
               ELSE got' = Append(got, Flushed) /\ cur' = <<>> /\ pend' = FALSE /\ i' = i + 1 /\ UNCHANGED <<c, j, ph>>
          ELSE /\ cur' = CASE u = 1 -> Append(Flushed, 1)
                           [] u = 2 -> Flushed
                           [] u = 3 -> IF pend THEN Append(cur, 4) ELSE Append(cur, 5)
               /\ pend' = (u = 2)
               /\ i' = i + 1 /\ UNCHANGED <<c, j, got, ph>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* -------------------------------- contract -------------------------------- *)
Whole == FoldLeft(LAMBDA a, b : a \o b, <<>>, SubSeq(c.p, 1, Limit))
NulAt(u, from) == IF \E k \in from..Len(u) : u[k] = 0 THEN CHOOSE k \in from..Len(u) : u[k] = 0 /\ \A m \in from..(k - 1) : u[m] # 0
                  ELSE Len(u) + 1
Paired(u, k) == u[k] = 2 /\ k < Len(u) /\ u[k + 1] = 3
Decoded(u) ==       \* what every unit contributes
  FoldLeft(LAMBDA a, b : a \o b, <<>>,
           [k \in 1..Len(u) |-> IF u[k] = 1 THEN <<1>>
                                ELSE IF Paired(u, k) THEN <<4>>
                                ELSE IF k > 1 /\ Paired(u, k - 1) THEN <<>>
                                ELSE <<5>>])
RECURSIVE StringsFrom(_, _)
StringsFrom(u, k) ==
  LET e == NulAt(u, k)
      s == SubSeq(u, k, e - 1)
  IN IF e > Len(u) /\ c.bad # 0 THEN <<>>            \* runs into the unreadable slice
     ELSE IF ~c.multi THEN <<Decoded(s)>>
     ELSE IF s = <<>> THEN <<>> ELSE <<Decoded(s)>> \o StringsFrom(u, e + 1)
RECURSIVE Needs(_, _)
Needs(u, k) ==       \* the unreadable slice is reached
  LET e == NulAt(u, k)
  IN IF e > Len(u) THEN c.bad # 0
     ELSE IF ~c.multi \/ e = k THEN FALSE ELSE Needs(u, e + 1)

Exact == /\ ph = "done" => got = StringsFrom(Whole, 1) /\ ~Needs(Whole, 1)
         /\ ph = "error" => Needs(Whole, 1) /\ got = (IF c.multi THEN StringsFrom(Whole, 1) ELSE <<>>)
Terminates == <>(ph # "run")

Export == (ph = "run" /\ i = 1 /\ j = 1 /\ cur = <<>> /\ ~pend /\ got = <<>> /\ ~c.multi) => PrintT(ToJson(c))
=============================================================================
