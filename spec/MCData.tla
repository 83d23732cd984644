------------------------------- MODULE MCData -------------------------------
(* Raw value data (C08) as the reader fetches it: inline, from one cell, or   *)
(* segment by segment - against the contract that exactly the stored number   *)
(* of bytes comes back, or an error.  Sizes are scaled: Step bytes per        *)
(* segment.  A cell is described by how its room relates to what is wanted.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Step, MaxSize, Surplus

Rooms == {"gone", "short", "enough"}
Header == {"ok", "gone", "tiny", "sig"}                 \* the big-data header
ListRoom == {"ok", "gone", "short"}
CeilDiv(a, b) == (a + b - 1) \div b

Base(i, n, big, cell) == [inline |-> i, n |-> n, big |-> big, cell |-> cell, hdr |-> "ok", m |-> 0, list |-> "ok", segs |-> <<>>]
(* big data: m segments are announced and listed *)
Bigs(n) ==
  LET need == CeilDiv(n, Step) IN
  {[Base(FALSE, n, TRUE, "enough") EXCEPT !.m = Len(s), !.segs = s]
     : s \in UNION {[1..k -> Rooms] : k \in (need - 1)..(need + Surplus)}}
  \cup {[Base(FALSE, n, TRUE, "enough") EXCEPT !.m = k, !.segs = [i \in 1..k |-> "enough"], !.hdr = h, !.list = l]
     : k \in (need - 1)..(need + Surplus), h \in Header, l \in ListRoom}
Configs ==
  {Base(TRUE, n, b, "enough") : n \in 0..7, b \in BOOLEAN}
  \cup {Base(FALSE, n, TRUE, c) : n \in 0..Step, c \in Rooms}
  \cup {Base(FALSE, n, FALSE, c) : n \in 0..MaxSize, c \in Rooms}
  \cup UNION {Bigs(n) : n \in (Step + 1)..MaxSize}

VARIABLES c, ph, i, left, out
vars == <<c, ph, i, left, out>>

Init == c \in Configs /\ ph = "open" /\ i = 0 /\ left = c.n /\ out = 0

Finish(p, o) == ph' = p /\ out' = o /\ UNCHANGED <<c, i, left>>

Open ==
  /\ ph = "open"
  /\ IF c.inline THEN IF c.n > 4 THEN Finish("error", 0) ELSE Finish("done", c.n)
     ELSE IF c.cell = "gone" \/ c.hdr = "gone" THEN Finish("error", 0)
     ELSE IF c.n <= Step \/ ~c.big THEN IF c.cell = "short" THEN Finish("error", 0) ELSE Finish("done", c.n)
     ELSE IF c.hdr \in {"tiny", "sig"} THEN Finish("error", 0)
     ELSE IF c.m * Step < c.n THEN Finish("error", 0)
     ELSE IF c.list # "ok" THEN Finish("error", 0)
     ELSE ph' = "segs" /\ UNCHANGED <<c, i, left, out>>

Segment ==
  /\ ph = "segs"
  /\ LET take == IF left < Step THEN left ELSE Step
     IN IF take = 0 THEN Finish("done", out)
        ELSE IF i >= c.m THEN Finish("error", 0)
        ELSE IF c.segs[i + 1] # "enough" THEN Finish("error", 0)
        ELSE i' = i + 1 /\ left' = left - take /\ out' = out + take /\ UNCHANGED <<c, ph>>

Next == Open \/ Segment
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* -------------------------------- contract -------------------------------- *)
Form == IF c.inline THEN "inline" ELSE IF c.n <= Step \/ ~c.big THEN "cell" ELSE "big"
Sound ==
  CASE Form = "inline" -> c.n <= 4
    [] Form = "cell" -> c.cell = "enough"
    [] Form = "big" -> /\ c.hdr = "ok" /\ c.list = "ok" /\ c.cell # "gone"
                       /\ CeilDiv(c.n, Step) <= c.m
                       /\ \A j \in 1..CeilDiv(c.n, Step) : c.segs[j] = "enough"
AllOrError == /\ ph = "done" => Sound /\ out = c.n
              /\ ph = "error" => ~Sound
NeverMore == i <= CeilDiv(c.n, Step)
Terminates == <>(ph \in {"done", "error"})

Export == ph = "open" => PrintT(ToJson(c))
=============================================================================
