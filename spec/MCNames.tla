------------------------------- MODULE MCNames -------------------------------
(* A stored name (C12): which bytes it is, how it is decoded, and what its    *)
(* strict and lossy conversions say - the reader's one-pass conversion        *)
(* against the contract.  Symbols as in MCText: 0 NUL, 1 ordinary, 2 high and *)
(* 3 low surrogate; a Latin-1 name has symbols 0 and 1 only.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxUnits

VARIABLES enc, u, odd, room, i, pend, out, strict, res
vars == <<enc, u, odd, room, i, pend, out, strict, res>>

(* room: bytes in the cell beyond the announced length, -1: one byte short *)
Init ==
  /\ enc \in {"L", "U"} /\ odd \in BOOLEAN /\ room \in {-1, 0, 1}
  /\ u \in UNION {[1..n -> 0..3] : n \in 0..MaxUnits}
  /\ enc = "L" => ~odd /\ \A k \in 1..Len(u) : u[k] < 2
  /\ i = 0 /\ pend = FALSE /\ out = <<>> /\ strict = TRUE /\ res = "?"
ByteLen == IF enc = "L" THEN Len(u) ELSE 2 * Len(u) + (IF odd THEN 1 ELSE 0)

Open == /\ i = 0 /\ res = "?"
        /\ IF room < 0 /\ ByteLen > 0 THEN res' = "error" /\ UNCHANGED i ELSE i' = 1 /\ UNCHANGED res
        /\ UNCHANGED <<enc, u, odd, room, pend, out, strict>>
Flushed == IF pend THEN Append(out, 5) ELSE out
Step ==
  /\ i > 0 /\ res = "?"
  /\ IF i > Len(u)
     THEN out' = Flushed /\ strict' = (strict /\ ~pend) /\ pend' = FALSE /\ res' = "ok" /\ UNCHANGED i
     ELSE LET x == u[i] IN
          /\ out' = CASE x < 2 -> Append(Flushed, x)
                      [] x = 2 -> Flushed
                      [] x = 3 -> IF pend THEN Append(out, 4) ELSE Append(out, 5)
          /\ strict' = (strict /\ IF x = 3 THEN pend ELSE ~pend)
          /\ pend' = (x = 2) /\ i' = i + 1 /\ UNCHANGED res
  /\ UNCHANGED <<enc, u, odd, room>>
Next == Open \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* -------------------------------- contract -------------------------------- *)
Paired(k) == u[k] = 2 /\ k < Len(u) /\ u[k + 1] = 3
Second(k) == k > 1 /\ Paired(k - 1)
Lonely(k) == u[k] >= 2 /\ ~Paired(k) /\ ~Second(k)
Firsts == {k \in 1..Len(u) : ~Second(k)}
RECURSIVE Chars(_)
Chars(k) == IF k > Len(u) THEN <<>>
            ELSE IF Second(k) THEN Chars(k + 1)
            ELSE <<IF Paired(k) THEN 4 ELSE IF u[k] >= 2 THEN 5 ELSE u[k]>> \o Chars(k + 1)
Decides == res # "?" => (res = "error" <=> ByteLen > 0 /\ room < 0)
Converts == res = "ok" => out = Chars(1) /\ Len(out) = Cardinality(Firsts)
Strict == res = "ok" => (strict <=> \A k \in 1..Len(u) : ~Lonely(k))
Terminates == <>(res # "?")

Export == (i = 0 /\ res = "?") => PrintT(ToJson([enc |-> enc, u |-> u, odd |-> odd, room |-> room]))
=============================================================================
